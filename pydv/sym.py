"""Symbolic scalars and arrays, and the path explorer."""
import sys
from fractions import Fraction
import numbers
from . import terms as T
from .terms import P, ZERO, ONE
from . import prove as PR


class Unsupported(BaseException):
    """the code left the fragment the verifier understands"""


class PathAbort(BaseException):
    """infeasible or cut path"""


class Ctx:
    """one symbolic execution (one path)"""

    def __init__(self, explorer, decisions):
        self.ex = explorer
        self.decisions = decisions
        self.pos = 0
        self.trail = []
        self.pc = []
        self.assumed = []
        self.quiet = 0

    def hyps(self):
        return self.assumed + self.pc

    def assume(self, c):
        c = boolpoly(c)
        if c is ONE:
            return
        self.assumed.append(c)

    def branch(self, cond):
        """decide a 0/1 poly on this path"""
        k = cond.const()
        if k is not None:
            return k != 0
        r = PR.decide(cond, self.hyps())
        if r is not None:
            return r
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]
        else:
            v = True
            self.decisions.append(True)
            self.ex.count()
        self.trail.append(v)
        self.pos += 1
        self.pc.append(cond if v else T.lnot(cond))
        return v


CTX = [None]


def ctx():
    c = CTX[-1]
    if c is None:
        raise Unsupported("no symbolic context")
    return c


class Explorer:
    def __init__(self, maxpaths=400):
        self.maxpaths = maxpaths
        self.branches = 0
        self.paths = 0

    def count(self):
        self.branches += 1

    def run(self, fn):
        """run fn(ctx) over all paths; returns list of (ctx, result)"""
        out = []
        todo = [[]]
        while todo:
            dec = todo.pop()
            n0 = len(dec)
            c = Ctx(self, list(dec))
            CTX.append(c)
            try:
                try:
                    r = fn(c)
                    ok = True
                except PathAbort:
                    ok = False
            finally:
                CTX.pop()
            self.paths += 1
            if self.paths > self.maxpaths:
                raise Unsupported("too many paths")
            if ok:
                out.append((c, r))
            for i in range(len(c.decisions) - 1, n0 - 1, -1):
                if c.decisions[i]:
                    todo.append(c.decisions[:i] + [False])
        return out


# ------------------------------------------------------------ scalars

def kind_join(a, b):
    o = 'bif'
    return o[max(o.index(a), o.index(b))]


def boolpoly(x):
    if isinstance(x, Sc):
        if x.kind == 'b':
            return x.p
        return T.lnot(T.eq0(x.p))
    if isinstance(x, T.Poly):
        return x
    if isinstance(x, SA):
        if x.ndim == 0:
            return boolpoly(x.item())
        if all(c == 1 for c in x.shape):
            return boolpoly(x.item())
        raise ValueError("truth value of an array is ambiguous")
    return ONE if x else ZERO


class Special:
    """non-finite float constants"""


def is_special(x):
    return isinstance(x, float) and (x != x or x in (float('inf'), float('-inf')))


class Sc:
    """symbolic (numpy or Python) scalar"""
    __slots__ = ("p", "kind", "__weakref__")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, p, kind):
        self.p = p
        self.kind = kind

    # numpy scalar protocol
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return DT[self.kind]

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dt, copy=True):
        return cast_sc(self, dtkind(dt))

    def sum(self, axis=None):
        return self

    mean = max = min = ravel_ = sum

    def ravel(self):
        return SA.full((1,), self)

    def reshape(self, *shape):
        return to_sa(self).reshape(*shape)

    def any(self, axis=None):
        return Sc(boolpoly(self), 'b')
    all = any

    def __getitem__(self, key):
        return to_sa(self)[key]

    # python protocol
    def __bool__(self):
        return ctx().branch(boolpoly(self))

    def __int__(self):
        c = self.p.const()
        if c is None:
            raise Unsupported("native int() of a symbolic value")
        return int(c)

    def __float__(self):
        c = self.p.const()
        if c is None:
            raise Unsupported("native float() of a symbolic value")
        return float(c)

    def __index__(self):
        c = self.p.const()
        if c is None and self.kind == 'i' and CTX[-1] is not None:
            cx = CTX[-1]
            if PR.decide(T.ge(self.p, ZERO) * T.lt(self.p, P(8)), cx.hyps()):
                for k in range(8):
                    if cx.branch(T.eq(self.p, P(k))):
                        return k
        if c is None or c.denominator != 1:
            raise Unsupported("native index of a symbolic value")
        return int(c)

    def __hash__(self):
        c = self.p.const()
        if c is None:
            raise Unsupported("hash of a symbolic value")
        return hash(int(c) if c.denominator == 1 else float(c))

    def __repr__(self):
        return "Sc(%s)" % T.show(self.p)

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __iter__(self):
        raise TypeError("'%s' object is not iterable" % self.kind)

    def __len__(self):
        raise TypeError("object has no len()")


def cast_sc(x, kind):
    if x.kind == kind:
        return x
    if kind == 'b':
        return Sc(boolpoly(x), 'b')
    if kind == 'i' and x.kind == 'f':
        return Sc(T.trunc(x.p), 'i')
    return Sc(x.p, kind)


def sc(x):
    """lift a scalar"""
    if isinstance(x, Sc):
        return x
    if isinstance(x, SA):
        if x.ndim == 0:
            return x.item()
        raise Unsupported("array used as scalar")
    if isinstance(x, bool):
        return Sc(P(x), 'b')
    if isinstance(x, int):
        return Sc(P(x), 'i')
    if isinstance(x, float):
        if is_special(x):
            raise Unsupported("non-finite arithmetic")
        return Sc(P(x), 'f')
    if isinstance(x, Fraction):
        return Sc(P(x), 'f')
    if type(x).__module__ == 'numpy':
        import numpy as np
        if isinstance(x, np.bool_):
            return Sc(P(bool(x)), 'b')
        if isinstance(x, np.integer):
            return Sc(P(int(x)), 'i')
        if isinstance(x, np.floating):
            return sc(float(x))
    raise Unsupported("not a scalar: %r" % (type(x),))


def py(x):
    """Sc with constant value -> native number (keeps kind)"""
    if isinstance(x, Sc):
        c = x.p.const()
        if c is not None:
            if x.kind == 'b':
                return bool(c)
            if x.kind == 'i':
                return int(c)
    return x


def mk(p, kind):
    return Sc(p, kind)


def _special_binop(op, a, b):
    raise Unsupported("non-finite arithmetic")


def scalar_op(op, a, b):
    if is_special(a) or is_special(b):
        r = special_op(op, a, b)
        if r is not NotImplemented:
            return r
    a, b = sc(a), sc(b)
    k = kind_join(a.kind, b.kind)
    if op == 'add':
        return Sc(a.p + b.p, k if k != 'b' else 'i')
    if op == 'sub':
        return Sc(a.p - b.p, k if k != 'b' else 'i')
    if op == 'mul':
        return Sc(a.p * b.p, k)
    if op == 'div':
        if b.p is ZERO:
            raise ZeroDivisionError("division by zero")
        return Sc(a.p / b.p, 'f')
    if op == 'fdiv':
        if b.p is ZERO:
            raise ZeroDivisionError("division by zero")
        return Sc(T.fdiv(a.p, b.p), k if k != 'b' else 'i')
    if op == 'mod':
        return Sc(T.mod(a.p, b.p), k if k != 'b' else 'i')
    if op == 'pow':
        c = b.p.const()
        if c is None:
            if a.p.const() is not None and a.p.const() > 0:
                return Sc(T.exp(b.p * T.log(a.p)), 'f')
            return Sc(T.App('pow', (a.p, b.p)), k)
        if c.denominator == 1:
            return Sc(T.power(a.p, int(c)), k if c >= 0 else 'f')
        if c == Fraction(1, 2):
            return Sc(T.sqrt(a.p), 'f')
        return Sc(T.App('pow', (a.p, b.p)), 'f')
    if op == 'eq':
        return Sc(T.eq(a.p, b.p), 'b')
    if op == 'ne':
        return Sc(T.lnot(T.eq(a.p, b.p)), 'b')
    if op == 'lt':
        return Sc(T.lt(a.p, b.p), 'b')
    if op == 'le':
        return Sc(T.le(a.p, b.p), 'b')
    if op == 'gt':
        return Sc(T.gt(a.p, b.p), 'b')
    if op == 'ge':
        return Sc(T.ge(a.p, b.p), 'b')
    if op == 'and':
        if k == 'b':
            return Sc(T.land(a.p, b.p), 'b')
        raise Unsupported("bitwise and")
    if op == 'or':
        if k == 'b':
            return Sc(T.lor(a.p, b.p), 'b')
        raise Unsupported("bitwise or")
    if op == 'xor':
        if k == 'b':
            return Sc(a.p + b.p - P(2) * a.p * b.p, 'b')
        raise Unsupported("bitwise xor")
    if op == 'max':
        return Sc(T.tmax(a.p, b.p), k)
    if op == 'min':
        return Sc(T.tmin(a.p, b.p), k)
    if op == 'logaddexp':
        return Sc(T.log(T.exp(a.p) + T.exp(b.p)), 'f')
    raise Unsupported(op)


def special_op(op, a, b):
    """arithmetic with inf/nan where the result does not depend on the finite
    symbolic operand"""
    inf = float('inf')
    if a != a or b != b:
        raise Unsupported("nan arithmetic")
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        import operator
        f = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'lt': operator.lt,
             'le': operator.le, 'gt': operator.gt, 'ge': operator.ge, 'eq': operator.eq, 'ne': operator.ne}.get(op)
        if f:
            return f(a, b)
        return NotImplemented
    if op == 'add':
        return a if is_special(a) else b
    if op == 'sub':
        return a if is_special(a) else -b
    if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        x = a if is_special(a) else 0.0
        y = b if is_special(b) else 0.0
        import operator
        return getattr(operator, op)(x, y)
    if op == 'div' and is_special(b) and not is_special(a):
        return Sc(ZERO, 'f')
    raise Unsupported("non-finite arithmetic %s" % op)


def _isarr(x):
    return isinstance(x, SA)


def binop(op, a, b):
    import numpy as np
    if isinstance(b, (list, tuple)) or isinstance(a, (list, tuple)):
        if _isarr(a):
            b = to_sa(b)
        elif _isarr(b):
            a = to_sa(a)
        elif isinstance(a, Sc) and isinstance(b, (list, tuple)) and op == 'mul':
            raise Unsupported("list repeat")
        elif op == 'eq':
            return False
        elif op == 'ne':
            return True
    if isinstance(b, np.ndarray):
        b = to_sa(b)
    if isinstance(a, np.ndarray):
        a = to_sa(a)
    if op in ('eq', 'ne') and (a is None or b is None or isinstance(a, str) or isinstance(b, str)
                               or isinstance(a, type) or isinstance(b, type)):
        r = (op == 'ne')
        if _isarr(a) or _isarr(b):
            arr = a if _isarr(a) else b
            return SA.full(arr.shape, Sc(P(r), 'b'))
        return r
    if isinstance(a, MaybeNone) or isinstance(b, MaybeNone):
        return maybe_op(op, a, b)
    if _isarr(a) or _isarr(b):
        return elementwise2(op, a, b)
    try:
        return scalar_op(op, a, b)
    except T.TermError as e:
        raise Unsupported(str(e))


class MaybeNone:
    """value that is None under a condition"""

    def __init__(self, none, val):
        self.none = none
        self.val = val

    def __eq__(self, o):
        return maybe_op('eq', self, o)

    def __ne__(self, o):
        return maybe_op('ne', self, o)
    __hash__ = None


def maybe_op(op, a, b):
    if op not in ('eq', 'ne'):
        raise Unsupported("operation on possibly-None")
    an, av = (a.none, a.val) if isinstance(a, MaybeNone) else ((ONE, None) if a is None else (ZERO, a))
    bn, bv = (b.none, b.val) if isinstance(b, MaybeNone) else ((ONE, None) if b is None else (ZERO, b))
    both = an * bn
    if av is None or bv is None:
        r = both
    else:
        r = both + (ONE - an) * (ONE - bn) * sc(scalar_op('eq', av, bv)).p
    if op == 'ne':
        r = ONE - r
    return Sc(r, 'b')


def _install():
    names = {'__add__': 'add', '__sub__': 'sub', '__mul__': 'mul', '__truediv__': 'div',
             '__floordiv__': 'fdiv', '__mod__': 'mod', '__pow__': 'pow', '__eq__': 'eq',
             '__ne__': 'ne', '__lt__': 'lt', '__le__': 'le', '__gt__': 'gt', '__ge__': 'ge',
             '__and__': 'and', '__or__': 'or', '__xor__': 'xor'}
    for cls in (Sc, SA):
        for n, op in names.items():
            def f(self, o, op=op):
                return binop(op, self, o)
            setattr(cls, n, f)
            if op in ('add', 'sub', 'mul', 'div', 'fdiv', 'mod', 'pow', 'and', 'or', 'xor'):
                def g(self, o, op=op):
                    return binop(op, o, self)
                setattr(cls, '__r' + n[2:], g)
        cls.__neg__ = lambda self: unop('neg', self)
        cls.__pos__ = lambda self: self
        cls.__abs__ = lambda self: unop('abs', self)
        cls.__invert__ = lambda self: unop('not', self)
    for n, op in names.items():
        if op in ('add', 'sub', 'mul', 'div', 'fdiv', 'mod', 'pow', 'and', 'or'):
            def h(self, o, op=op):
                return inplace(op, self, o)
            setattr(SA, '__i' + n[2:], h)
    Sc.__hash__ = _schash
    SA.__hash__ = None


def _schash(self):
    c = self.p.const()
    if c is None:
        raise Unsupported("hash of a symbolic value")
    return hash(int(c) if c.denominator == 1 else float(c))


def scalar_un(op, x):
    if is_special(x):
        inf = float('inf')
        if op == 'exp':
            return 0.0 if x == -inf else inf
        if op == 'neg':
            return -x
        raise Unsupported("non-finite %s" % op)
    x = sc(x)
    p = x.p
    if op == 'neg':
        return Sc(-p, x.kind if x.kind != 'b' else 'i')
    if op == 'abs':
        return Sc(T.tabs(p), x.kind)
    if op == 'not':
        if x.kind != 'b':
            raise Unsupported("bitwise not of integer")
        return Sc(T.lnot(p), 'b')
    if op == 'lnot':
        return Sc(T.lnot(boolpoly(x)), 'b')
    if op == 'exp':
        return Sc(T.exp(p), 'f')
    if op == 'log':
        return Sc(T.log(p), 'f')
    if op == 'log10':
        return Sc(T.log(p) / T.ln10(), 'f')
    if op == 'log1p':
        return Sc(T.log(ONE + p), 'f')
    if op == 'log2':
        return Sc(T.log(p) / T.log(P(2)), 'f')
    if op == 'expm1':
        return Sc(T.exp(p) - ONE, 'f')
    if op == 'sqrt':
        return Sc(T.sqrt(p), 'f')
    if op == 'square':
        return Sc(p * p, x.kind)
    if op == 'sign':
        return Sc(T.sign(p), x.kind)
    if op == 'floor':
        return Sc(T.floor(p), x.kind)
    if op == 'ceil':
        return Sc(-T.floor(-p), x.kind)
    if op == 'isnan':
        return Sc(ZERO, 'b')
    if op == 'isinf':
        return Sc(ZERO, 'b')
    if op == 'isfinite':
        return Sc(ONE, 'b')
    if op == 'expit':
        return Sc(T.inv(ONE + T.exp(-p)), 'f')
    if op == 'log_expit':
        return Sc(-T.log(ONE + T.exp(-p)), 'f')
    if op == 'bool':
        return Sc(boolpoly(x), 'b')
    raise Unsupported(op)


def unop(op, x):
    try:
        if isinstance(x, (list, tuple)):
            x = to_sa(x)
        if isinstance(x, FilledSpecial):
            r = scalar_un(op, x.val)
            return FilledSpecial(x.shape, r) if is_special(r) else SA.full(x.shape, r)
        if isinstance(x, SA):
            return x.map(lambda s: scalar_un(op, s))
        if type(x).__module__ == 'numpy' and getattr(x, 'ndim', 0):
            return to_sa(x).map(lambda s: scalar_un(op, s))
        return scalar_un(op, x)
    except T.TermError as e:
        raise Unsupported(str(e))


# ------------------------------------------------------------ dtypes

class DType:
    def __init__(self, kind, name, pytype):
        self.kind, self.name, self.type = kind, name, pytype
        self.itemsize = 8 if kind != 'b' else 1

    def __repr__(self):
        return "dtype(%s)" % self.name

    def __eq__(self, o):
        try:
            return dtype_of(o).name == self.name
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.name)


class NpType(type):
    """np.float64 and friends: callable, usable as dtype and in isinstance"""
    def __call__(cls, x=0):
        if isinstance(x, SA):
            return x.astype(cls)
        if isinstance(x, (list, tuple)):
            return to_sa(x).astype(cls)
        if is_special(x):
            return x
        if isinstance(x, str):
            return {'f': float}.get(cls.kind, int)(x)
        return cast_sc(sc(x), cls.kind)

    def __instancecheck__(cls, x):
        if isinstance(x, Sc):
            return x.kind == cls.kind
        return False


class float64(metaclass=NpType):
    kind = 'f'


class float32(metaclass=NpType):
    kind = 'f'


class int64(metaclass=NpType):
    kind = 'i'


class int32(metaclass=NpType):
    kind = 'i'


class intc(metaclass=NpType):
    kind = 'i'


class bool_(metaclass=NpType):
    kind = 'b'


DT = {'f': DType('f', 'float64', float64), 'i': DType('i', 'int64', int64),
      'b': DType('b', 'bool', bool_)}
NARROW = {'float32': DType('f', 'float32', float32), 'int32': DType('i', 'int32', int32),
          'intc': DType('i', 'int32', intc)}


def dtype_of(d):
    """np.dtype(d); arrays themselves are always of the default width"""
    if isinstance(d, DType):
        return d
    n = d if isinstance(d, str) else getattr(d, '__name__', '')
    if n in NARROW:
        return NARROW[n]
    return DT[dtkind(d)]


def dtkind(d):
    if d is None:
        return 'f'
    if isinstance(d, DType):
        return d.kind
    k = getattr(d, 'kind', None)
    if isinstance(k, str) and k in ('f', 'i', 'b', 'u'):
        return 'i' if k == 'u' else k
    if d in (float,):
        return 'f'
    if d in (int,):
        return 'i'
    if d in (bool,):
        return 'b'
    if isinstance(d, str):
        if d in ('int', 'int64', 'int32', 'i', 'intp', 'i8', 'i4'):
            return 'i'
        if d in ('float', 'float64', 'f', 'd', 'double', 'f8'):
            return 'f'
        if d in ('bool', '?'):
            return 'b'
    n = getattr(d, '__name__', '')
    if n in ('float64', 'float32', 'floating', 'double', 'FloatShim'):
        return 'f'
    if n in ('int64', 'int32', 'integer', 'intc', 'intp', 'IntShim'):
        return 'i'
    if n in ('bool_', 'bool', 'BoolShim'):
        return 'b'
    raise Unsupported("dtype %r" % (d,))


# ------------------------------------------------------------ dims

def dimp(d):
    """shape entry -> Poly"""
    if isinstance(d, Sc):
        return d.p
    if isinstance(d, SA):
        return d.item().p
    return P(d)


def dimv(p):
    """Poly -> shape entry (int when constant)"""
    c = p.const()
    if c is not None:
        return int(c)
    return Sc(p, 'i')


def same_dim(a, b):
    pa, pb = dimp(a), dimp(b)
    if pa is pb:
        return True
    return ctx().branch(T.eq(pa, pb))


def is_one(a):
    """is the dimension statically 1?"""
    return dimp(a).const() == 1


# ------------------------------------------------------------ arrays

class Buf:
    _n = 0

    def __init__(self, shape, vars, body, kind):
        self.shape = tuple(shape)      # Polys
        self.vars = tuple(vars)        # index Var atoms
        self.body = body
        self.kind = kind
        self.version = 0
        self.tag = None
        Buf._n += 1
        self.id = Buf._n

    def at(self, idx):
        if not self.vars:
            return self.body
        env = {v.args[0]: i for v, i in zip(self.vars, idx)}
        return T.subst(self.body, env)

    def set(self, body):
        if body is not self.body:
            self.body = body
            self.version += 1


class SpecialArr:
    pass


class SA:
    """symbolic ndarray: a view (fwd/inv index maps) on a buffer"""
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, buf, shape=None, fwd=None, inv=None):
        self.buf = buf
        self._shape = tuple(shape) if shape is not None else buf.shape
        self._fwd = fwd
        self._inv = inv

    # construction
    @staticmethod
    def make(shape, f, kind):
        """f: tuple of Poly -> Sc/Poly"""
        dims = [dimp(d) for d in shape]
        vs = [T.fresh_index(d) for d in dims]
        try:
            b = f(tuple(P(v) for v in vs))
        except T.TermError as e:
            raise Unsupported(str(e))
        if isinstance(b, Sc):
            b = b.p
        elif not isinstance(b, T.Poly):
            b = sc(b).p
        return SA(Buf(dims, vs, b, kind))

    @staticmethod
    def full(shape, val, kind=None):
        v = sc(val)
        if kind is not None:
            v = cast_sc(v, kind)
        return SA.make(shape, lambda idx: v.p, v.kind)

    @staticmethod
    def inp(name, shape, kind='f'):
        """a symbolic input array"""
        sort = 'r' if kind == 'f' else 'i'
        if kind == 'b':
            a = SA.make(shape, lambda idx: T.bapp(name, idx), 'b')
        else:
            a = SA.make(shape, lambda idx: T.App(name, idx, sort), kind)
        a.buf.tag = name
        return a

    # protocol
    @property
    def kind(self):
        return self.buf.kind

    @property
    def dtype(self):
        return DT[self.buf.kind]

    @property
    def shape(self):
        return tuple(dimv(d) for d in self._shape)

    @shape.setter
    def shape(self, s):
        raise Unsupported("shape assignment")

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = ONE
        for d in self._shape:
            r = r * d
        return dimv(r)

    @property
    def nbytes(self):
        return self.size * 8

    @property
    def flags(self):
        raise Unsupported("flags")

    @property
    def T(self):
        return self.transpose()

    def at(self, idx):
        """Poly at Poly indices"""
        if self._fwd is not None:
            idx = self._fwd(tuple(idx))
        return self.buf.at(idx)

    def sc_at(self, idx):
        return Sc(self.at(idx), self.kind)

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if self.ndim == 0:
            return Sc(self.at(()), self.kind)
        for d in self._shape:
            if d.const() != 1:
                if not ctx().branch(T.eq(d, ONE)):
                    raise ValueError("can only convert an array of size 1 to a Python scalar")
        return Sc(self.at([ZERO] * self.ndim), self.kind)

    def tolist(self):
        raise Unsupported("tolist")

    def __repr__(self):
        vs = [T.fresh_index(d) for d in self._shape]
        return "SA(%s, %s: %s)" % (self.shape, [v.args[0] for v in vs], T.show(self.at([P(v) for v in vs])))

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        c = self._shape[0].const()
        if c is None:
            raise Unsupported("native len of symbolic array")
        return int(c)

    def __bool__(self):
        return ctx().branch(boolpoly(self))

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.ndim == 0:
            return self.item().__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        c = self._shape[0].const()
        if c is None:
            raise Unsupported("native iteration over symbolic array")
        return iter([self[i] for i in range(int(c))])

    def __contains__(self, x):
        return bool((self == x).any())

    def map(self, f, kind=None):
        """elementwise"""
        k = [None]

        def g(idx):
            r = f(Sc(self.at(idx), self.kind))
            if isinstance(r, float):
                r = sc(r)
            k[0] = r.kind
            return r.p
        a = SA.make(self._shape, g, 'f')
        a.buf.kind = kind or k[0]
        return a

    def copy(self, order=None):
        return SA.make(self._shape, lambda i: self.at(i), self.kind)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, copy=True, order=None):
        k = dtkind(dt)
        if k == self.kind and not copy:
            return self
        return self.map(lambda s: cast_sc(s, k), kind=k)

    # views
    def view(self, shape, fwd, inv):
        f0, i0 = self._fwd, self._inv

        def nf(idx):
            j = fwd(idx)
            return f0(j) if f0 is not None else j

        def ni(b):
            if i0 is not None:
                c, j = i0(b)
            else:
                c, j = ONE, b
            c2, v = inv(j)
            return c * c2, v
        return SA(self.buf, [dimp(d) for d in shape], nf, ni)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = [a % self.ndim for a in axes]
        back = {a: i for i, a in enumerate(axes)}
        return self.view([self._shape[a] for a in axes],
                         lambda idx: tuple(idx[back[j]] for j in range(len(idx))),
                         lambda b: (ONE, tuple(b[a] for a in axes)))

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def __getitem__(self, key):
        try:
            return getitem(self, key)
        except T.TermError as e:
            raise Unsupported(str(e))

    def __setitem__(self, key, val):
        try:
            setitem(self, key, val)
        except T.TermError as e:
            raise Unsupported(str(e))

    def assign(self, val, cond=None):
        """self[...] = val (broadcast), where cond(idx) holds"""
        val = val if isinstance(val, SA) else to_sa(val)
        v = broadcast_to(val, self._shape)
        k = self.kind
        buf = self.buf
        bvars = [P(x) for x in buf.vars]
        if self._inv is not None:
            c, idx = self._inv(tuple(bvars))
        else:
            c, idx = ONE, tuple(bvars)
        if c is ZERO:
            return
        newv = cast_sc(Sc(v.at(idx), v.kind), k).p
        if cond is not None:
            c = c * cond(idx)
        c = simp_range(c)
        buf.set(T.ite(c, newv, buf.body))

    # shape ops
    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if order not in ('C',):
            raise Unsupported("reshape order")
        return reshape(self, [py(s) if not isinstance(s, SA) else s.item() for s in shape])

    def ravel(self, order='C'):
        if order != 'C':
            raise Unsupported("ravel order")
        return reshape(self, [-1])

    def flatten(self, order='C'):
        return self.ravel(order).copy()

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def fill(self, v):
        self.assign(v)

    def repeat(self, *a, **k):
        raise Unsupported("repeat")

    # reductions (installed from npshim)


def simp_range(c):
    return c


def to_sa(x, kind=None):
    if isinstance(x, SA):
        return x
    if isinstance(x, SymSeq):
        return x.to_sa()
    if isinstance(x, Sc):
        return SA(Buf((), (), x.p, x.kind))
    if isinstance(x, (list, tuple, range)):
        if len(x) == 0:
            return SA(Buf((ZERO,), (T.fresh_index(ZERO),), ZERO, 'f'))
        items = [to_sa(y) for y in x]
        nd = items[0].ndim
        if any(i.ndim != nd for i in items):
            raise ValueError("setting an array element with a sequence: inhomogeneous shape")
        for i in items[1:]:
            for p, q in zip(i._shape, items[0]._shape):
                if not same_dim(dimv(p), dimv(q)):
                    raise ValueError("inhomogeneous shape")
        k = 'b'
        for i in items:
            k = kind_join(k, i.kind)

        def f(idx):
            r = items[-1].at(idx[1:])
            for j in range(len(items) - 2, -1, -1):
                r = T.ite(T.eq(idx[0], P(j)), items[j].at(idx[1:]), r)
            return r
        if len(items) == 1:
            return SA.make((1,) + items[0].shape, lambda idx: items[0].at(idx[1:]), k)
        return SA.make((len(items),) + items[0].shape, f, k)
    if type(x).__module__ == 'numpy' and hasattr(x, 'ndim') and x.ndim > 0:
        return to_sa(x.tolist()) if x.size else SA.make(x.shape, lambda i: ZERO, 'f')
    if is_special(x):
        raise Unsupported("non-finite array element")
    s = sc(x)
    return SA(Buf((), (), s.p, s.kind))


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        dims = []
        for s in shapes:
            j = k - (n - len(s))
            if j >= 0:
                dims.append(s[j])
        r = None
        for d in dims:
            if d.const() == 1:
                continue
            if r is None or r is d:
                r = d
            elif ctx().branch(T.eq(r, d)):
                # prefer the simpler
                pass
            elif ctx().branch(T.eq(d, ONE)):
                pass
            elif ctx().branch(T.eq(r, ONE)):
                r = d
            else:
                raise ValueError("operands could not be broadcast together")
        out.append(r if r is not None else ONE)
    return tuple(out)


def bidx(shape, idx):
    """index into an array of `shape` broadcast against a longer index"""
    off = len(idx) - len(shape)
    out = []
    for j, d in enumerate(shape):
        out.append(ZERO if (d.const() == 1 or is_unit(d)) else idx[off + j])
    return tuple(out)


def is_unit(d):
    if d.const() is not None:
        return d.const() == 1
    c = CTX[-1]
    if c is None:
        return False
    e = T.eq(d, ONE)
    return any(h is e for h in c.pc)


def broadcast_to(a, shape):
    shape = tuple(dimp(d) for d in shape)
    if len(a._shape) == len(shape) and all(x is y for x, y in zip(a._shape, shape)):
        return a
    # drop leading unit dims (assignment semantics)
    while a.ndim > len(shape) and a._shape[0].const() == 1:
        a = a[0] if a.ndim > 1 else to_sa(a[0])
    if a.ndim > len(shape):
        raise ValueError("could not broadcast input array")
    off = len(shape) - a.ndim
    use = []
    for j, d in enumerate(a._shape):
        t = shape[off + j]
        if d is t:
            use.append(True)
        elif d.const() == 1:
            use.append(False)
        elif ctx().branch(T.eq(d, t)):
            use.append(True)
        elif ctx().branch(T.eq(d, ONE)):
            use.append(False)
        else:
            raise ValueError("could not broadcast input array from shape into shape")
    return SA.make(shape, lambda idx: a.at(tuple(idx[off + j] if u else ZERO for j, u in enumerate(use))), a.kind)


def elementwise2(op, a, b):
    fa, fb = isinstance(a, FilledSpecial), isinstance(b, FilledSpecial)
    if fa or fb:
        sa = tuple(dimp(d) for d in a.shape) if fa else (() if is_special(a) else to_sa(a)._shape)
        sb = tuple(dimp(d) for d in b.shape) if fb else (() if is_special(b) else to_sa(b)._shape)
        shape = tuple(dimv(d) for d in broadcast_shapes(sa, sb))
        r = scalar_op(op, a.val if fa else (a if is_special(a) else Sc(T.App('?', ()), 'f')),
                      b.val if fb else (b if is_special(b) else Sc(T.App('?', ()), 'f')))
        return FilledSpecial(shape, r) if is_special(r) else SA.full(shape, r)
    a = a if isinstance(a, SA) else to_sa_special(a)
    b = b if isinstance(b, SA) else to_sa_special(b)
    if isinstance(a, float) or isinstance(b, float):
        # non-finite scalar against an array
        arr = a if isinstance(a, SA) else b
        r = scalar_op(op, a if not isinstance(a, SA) else Sc(T.App('?', ()), 'f'),
                      b if not isinstance(b, SA) else Sc(T.App('?', ()), 'f'))
        if is_special(r):
            return FilledSpecial(arr.shape, r)
        return SA.full(arr.shape, r)
    shape = broadcast_shapes(a._shape, b._shape)
    ka, kb = a.kind, b.kind
    if op == 'pow' and kb == 'f' and ka == 'i':
        ka = 'f'
    kk = [None]

    def f(idx):
        x = Sc(a.at(bidx(a._shape, idx)), ka)
        y = Sc(b.at(bidx(b._shape, idx)), kb)
        if ka == 'b' and kb == 'b':
            if op == 'add':
                r = scalar_op('or', x, y)
                kk[0] = 'b'
                return r.p
            if op == 'sub':
                raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
        r = scalar_op(op, x, y)
        kk[0] = r.kind
        return r.p
    r = SA.make(shape, f, 'f')
    r.buf.kind = kk[0]
    if r.ndim == 0 and True:
        return r.item()
    return r


def to_sa_special(x):
    if is_special(x):
        return x
    return to_sa(x)


class FilledSpecial:
    """array filled with a non-finite constant"""

    def __init__(self, shape, val):
        self.shape, self.val = shape, val

    @property
    def ndim(self):
        return len(self.shape)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported("array of non-finite values: %s" % n)


def inplace(op, a, o):
    r = binop(op, a, o)
    if not isinstance(r, SA):
        r = to_sa(r)
    if a.kind == 'i' and r.kind == 'f':
        raise TypeError("Cannot cast ufunc output from float64 to int64 with casting rule 'same_kind'")
    if a.kind == 'b' and r.kind != 'b':
        raise TypeError("Cannot cast ufunc output to bool")
    if len(r._shape) > a.ndim:
        raise ValueError("non-broadcastable output operand")
    a.assign(r)
    return a


# ------------------------------------------------------------ indexing

def norm_index(i, d):
    """integer index -> Poly in range, raising IndexError on the failing branch"""
    p = sc(i).p
    c = p.const()
    if c is not None and c < 0:
        p = p + d
        if not ctx().branch(T.ge(p, ZERO)):
            raise IndexError("index out of bounds")
        return p
    lo = T.ge(p, ZERO)
    if lo is not ONE:
        if not ctx().branch(lo):
            p = p + d
            if not ctx().branch(T.ge(p, ZERO)):
                raise IndexError("index out of bounds")
            return p
    if not ctx().branch(T.lt(p, d)):
        raise IndexError("index out of bounds")
    return p


def norm_slice(s, d):
    """-> (start Poly, length Poly, step)"""
    step = s.step
    if isinstance(step, Sc):
        step = py(step)
    if step is None:
        step = 1
    if step == -1 and s.start is None and s.stop is None:
        return d - ONE, d, -1
    if step != 1:
        if isinstance(step, int) and step > 1 and s.stop is None:
            st = bound(s.start, d, ZERO)
            n = T.fdiv(d - st + P(step) - ONE, P(step))
            return st, n, step
        raise Unsupported("slice step")
    st = bound(s.start, d, ZERO)
    en = bound(s.stop, d, d)
    if st is ZERO:
        return ZERO, en, 1
    n = en - st
    if not ctx().branch(T.ge(n, ZERO)):
        return st, ZERO, 1
    return st, n, 1


def bound(x, d, default):
    if x is None:
        return default
    p = sc(x).p
    if p is d:
        return d
    if not ctx().branch(T.ge(p, ZERO)):
        p = p + d
        if not ctx().branch(T.ge(p, ZERO)):
            return ZERO
        return p
    if not ctx().branch(T.le(p, d)):
        return d
    return p


NEWAXIS = None


def split_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    # boolean masks consume their ndim
    n = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if is_arr(k) and to_sa(k).kind == 'b' and to_sa(k).ndim > 0:
            n += to_sa(k).ndim
        else:
            n += 1
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[i:i + 1] = [slice(None)] * (a.ndim - n)
    else:
        key += [slice(None)] * (a.ndim - n)
    if n > a.ndim:
        raise IndexError("too many indices for array")
    return key


def is_arr(k):
    if isinstance(k, (SA, list, SymSeq)):
        return True
    return type(k).__module__ == 'numpy' and getattr(k, 'ndim', 0) > 0


def getitem(a, key):
    if isinstance(key, SA) and key.ndim == 0:
        key = key.item()
    if isinstance(key, tuple):
        key = tuple(k.item() if isinstance(k, SA) and k.ndim == 0 else k for k in key)
    ks = split_key(a, key)
    if any(is_arr(k) for k in ks):
        return fancy_get(a, ks)
    v = basic_view(a, ks)
    if v.ndim == 0:
        return Sc(v.at(()), a.kind)
    return v


def basic_view(a, ks):
    """ks: full key of ints/slices/newaxis"""
    spec = []   # per base dim: ('i', p) | ('s', start, step)
    shape = []
    vmap = []   # per view dim: base dim or None (newaxis)
    j = 0
    for k in ks:
        if k is None:
            shape.append(ONE)
            vmap.append(None)
            continue
        d = a._shape[j]
        if isinstance(k, slice):
            st, n, step = norm_slice(k, d)
            spec.append(('s', st, step, len(shape)))
            shape.append(n)
            vmap.append(j)
        else:
            if isinstance(k, (bool,)) or (isinstance(k, Sc) and k.kind == 'b'):
                raise Unsupported("boolean scalar index")
            if not isinstance(k, (int, Sc, numbers.Integral)):
                if isinstance(k, float):
                    raise IndexError("only integers, slices... are valid indices")
                raise Unsupported("index %r" % (k,))
            if isinstance(k, Sc) and k.kind == 'f':
                raise IndexError("only integers, slices... are valid indices")
            spec.append(('i', norm_index(k, d)))
        j += 1

    def fwd(idx):
        out = []
        for s in spec:
            if s[0] == 'i':
                out.append(s[1])
            else:
                _, st, step, vd = s
                out.append(st + (idx[vd] if step == 1 else P(step) * idx[vd]))
        return tuple(out)

    nshape = list(shape)

    def inv(b):
        c = ONE
        v = [ZERO] * len(nshape)
        for s, x in zip(spec, b):
            if s[0] == 'i':
                c = c * T.eq(x, s[1])
            else:
                _, st, step, vd = s
                if step == 1:
                    y = x - st
                elif step == -1:
                    y = st - x
                else:
                    y = T.fdiv(x - st, P(step))
                    c = c * T.eq(y * P(step) + st, x)
                v[vd] = y
                if not (st is ZERO and step == 1):
                    c = c * T.ge(y, ZERO)
                c = c * T.lt(y, nshape[vd])
        return c, tuple(v)
    if not ks and a.ndim == 0:
        return a
    return a.view(shape, fwd, inv)


def mask_count(m):
    """number of True of a boolean array -> Poly"""
    vs = [T.fresh_index(d) for d in m._shape]
    return T.tsum(vs, m._shape, m.at([P(v) for v in vs]))


def lam_of(a):
    vs = [T.fresh_index(d) for d in a._shape]
    return T.mklam(vs, a._shape, a.at([P(v) for v in vs]))


def nz_index(m, k):
    """k-th True position of a 1-d mask"""
    return T.rebuild_app('nzpos', (lam_of(m), k), 'i')


def fancy_get(a, ks):
    # normalise to list of (kind, value) per base dim; broadcast index arrays
    idxs = []
    for k in ks:
        if is_arr(k):
            s = to_sa(k)
            if s.kind == 'b':
                if s.ndim == 1:
                    idxs.append(('m', s))
                else:
                    if len([1 for q in ks if is_arr(q)]) == 1 and s.ndim == a.ndim:
                        return mask_get_nd(a, s)
                    raise Unsupported("nd mask")
            else:
                if s.kind == 'f':
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
                idxs.append(('a', s))
        elif k is None:
            idxs.append(('n', None))
        elif isinstance(k, slice):
            idxs.append(('s', k))
        else:
            idxs.append(('i', k))
    arrs = [v for t, v in idxs if t in 'am']
    pos = [i for i, (t, _) in enumerate(idxs) if t in 'ami']
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    # turn masks into position arrays
    conv = []
    base = 0
    for t, v in idxs:
        if t == 'm':
            if not same_dim(dimv(v._shape[0]), dimv(a._shape[base])):
                raise IndexError("boolean index did not match indexed array")
            conv.append(('a', nonzero1(v)))
        elif t == 'i':
            conv.append(('i', norm_index(v, a._shape[base])))
        else:
            conv.append((t, v))
        if t != 'n':
            base += 1
    arrs = [v for t, v in conv if t == 'a']
    bshape = broadcast_shapes(*[v._shape for v in arrs])
    nb = len(bshape)
    # bounds of index arrays
    base = 0
    for t, v in conv:
        if t == 'n':
            continue
        if t == 'a':
            check_bounds(v, a._shape[base])
        base += 1
    out_shape = []
    plan = []   # per base dim
    placed = False
    slice_dims = []
    boff = None
    if not contiguous:
        out_shape += list(bshape)
        boff = 0
        placed = True
    base = 0
    for t, v in conv:
        if t == 'n':
            out_shape.append(ONE)
            continue
        d = a._shape[base]
        if t == 's':
            st, n, step = norm_slice(v, d)
            plan.append(('s', st, step, len(out_shape)))
            out_shape.append(n)
        else:
            if not placed:
                boff = len(out_shape)
                out_shape += list(bshape)
                placed = True
            plan.append((t, v))
        base += 1

    def f(idx):
        bi = idx[boff:boff + nb]
        out = []
        for pl in plan:
            if pl[0] == 's':
                _, st, step, vd = pl
                out.append(st + (idx[vd] if step == 1 else P(step) * idx[vd]))
            elif pl[0] == 'i':
                out.append(pl[1])
            else:
                out.append(wrap_neg(pl[1].at(bidx(pl[1]._shape, bi))))
        return a.at(tuple(out))
    return SA.make(out_shape, f, a.kind)


def wrap_neg(p):
    return p


def check_bounds(v, d):
    """all entries of the integer array v lie in [0, d)"""
    vs = [T.fresh_index(x) for x in v._shape]
    b = v.at([P(x) for x in vs])
    c = ctx()
    ok = T.ge(b, ZERO) * T.lt(b, d)
    if ok is ONE:
        return
    if PR.implied(ok, c.hyps()):
        return
    if not c.branch(T.tall(vs, v._shape, ok)):
        # negative entries wrap around in numpy; treat as out of fragment
        raise Unsupported("index array possibly out of bounds")


def nonzero1(m):
    """positions of True in a 1-d mask as an index array"""
    c = m._shape[0].const()
    if c is not None and 1 <= c <= 8 and CTX[-1] is not None:
        hy = CTX[-1].hyps()
        kept = []
        for k in range(int(c)):
            x = m.at((P(k),))
            d = x.const()
            d = PR.decide(x, hy) if d is None else d != 0
            if d is None:
                break
            if d:
                kept.append(k)
        else:
            def at(idx):
                r, i = ZERO, idx[0].const()
                if i is not None:
                    return P(kept[int(i)])
                for q, k in enumerate(kept):
                    r = r + T.eq(idx[0], P(q)) * P(k)
                return r
            return SA.make((len(kept),), at, 'i')
    n = mask_count(m)
    l = lam_of(m)
    a = SA.make((dimv(n),), lambda idx: T.rebuild_app('nzpos', (l, idx[0]), 'i'), 'i')
    return a


def mask_get_nd(a, m):
    flat = reshape(a, [-1])
    fm = reshape(m, [-1])
    return flat[fm]


# nzpos facts
def _nz_facts(atom):
    l, k = atom.args[1], atom.args[2]
    p = P(atom)
    d = l.dims[0]
    inr = T.ge(k, ZERO) * T.lt(k, _lam_count(l))
    val = T.open_lam(l, [p])
    yes = T.lor(T.lnot(inr), T.ge(p, ZERO) * T.lt(p, d) * val)
    return [yes]


def _lam_count(l):
    vs, b = T.open_lam(l)
    return T.tsum(vs, l.dims, b)


def _nz_rewrite(args, sort):
    l, k = args
    if not isinstance(k, T.Poly):
        return None
    T.NZ[:] = [True]
    # all-true mask: identity
    vs, b = T.open_lam(l)
    if b is ONE:
        return k
    a = k.single_atom()
    if a is not None and a.head == 'app' and a.args[0] == 'nzrank' and a.args[1] is l:
        return None      # only valid where the mask holds; see rank_at
    return None


T.REWRITE['nzpos'] = _nz_rewrite
PR.APPFACTS['nzpos'] = _nz_facts


def setitem(a, key, val):
    if isinstance(key, SA) and key.ndim == 0:
        key = key.item()
    if isinstance(key, tuple):
        key = tuple(k.item() if isinstance(k, SA) and k.ndim == 0 else k for k in key)
    if isinstance(val, FilledSpecial) or is_special(val):
        raise Unsupported("storing non-finite value")
    ks = split_key(a, key)
    if not any(is_arr(k) for k in ks):
        v = basic_view(a, ks)
        v.assign(val)
        return
    # full boolean mask
    arrs = [to_sa(k) for k in ks if is_arr(k)]
    if len(arrs) == 1 and arrs[0].kind == 'b' and arrs[0].ndim == a.ndim and a.ndim > 0 and len(ks) == 1:
        m = arrs[0]
        for x, y in zip(m._shape, a._shape):
            if not same_dim(dimv(x), dimv(y)):
                raise IndexError("boolean index did not match")
        vv = val if isinstance(val, SA) else to_sa(val)
        if vv.ndim == 0 or (vv.ndim == 1 and vv._shape[0].const() == 1):
            s = vv if vv.ndim == 0 else to_sa(vv[0])
            a.assign(s, cond=lambda idx: m.at(idx))
            return
        if a.ndim == 1 and vv.ndim == 1:
            cnt = mask_count(m)
            if not same_dim(dimv(cnt), dimv(vv._shape[0])):
                raise ValueError("NumPy boolean array indexing assignment cannot assign values")
            l = lam_of(m)
            t = SA.make(a._shape, lambda idx: vv.at((rank_at(l, idx[0]),)), vv.kind)
            a.assign(t, cond=lambda idx: m.at(idx))
            return
        raise Unsupported("mask assignment")
    # single mask / index array among basic keys
    if len(arrs) == 1:
        j = [i for i, k in enumerate(ks) if is_arr(k)][0]
        m = arrs[0]
        others = [k for i, k in enumerate(ks) if i != j]
        if None in others:
            raise Unsupported("newaxis with fancy assignment")
        if m.kind == 'b':
            if m.ndim != 1:
                raise Unsupported("nd mask assignment")
            l = lam_of(m)
            sel = lambda x: (m.at((x,)), rank_at(l, x))
            cnt = mask_count(m)
            # view over other dims
            kk = list(ks)
            kk[j] = slice(None)
            v = basic_view(a, kk)
            jj = len([k for k in ks[:j] if isinstance(k, slice)])
            vshape = list(v._shape)
            vshape[jj] = cnt
            vv = broadcast_to(val if isinstance(val, SA) else to_sa(val), vshape)
            t = SA.make(v._shape, lambda idx: vv.at(idx[:jj] + (rank_at(l, idx[jj]),) + idx[jj + 1:]), vv.kind)
            v.assign(t, cond=lambda idx: m.at((idx[jj],)))
            return
        # integer index array
        if m.ndim == 1 and m.kind == 'i':
            nzl = nz_lam(m)
            kk = list(ks)
            kk[j] = slice(None)
            check_bounds(m, a._shape[j])
            v = basic_view(a, kk)
            jj = len([k for k in ks[:j] if isinstance(k, slice)])
            if nzl is not None and PR.implied(T.eq(nzl.dims[0], v._shape[jj]), ctx().hyps()):
                # index array = positions of a mask
                cond = lambda x: T.open_lam(nzl, [x])
                vshape = list(v._shape)
                vshape[jj] = m._shape[0]
                vv = broadcast_to(val if isinstance(val, SA) else to_sa(val), vshape)
                t = SA.make(v._shape, lambda idx: vv.at(idx[:jj] + (rank_at(nzl, idx[jj]),) + idx[jj + 1:]), vv.kind)
                v.assign(t, cond=lambda idx: cond(idx[jj]))
                return
            vs = val if isinstance(val, SA) else to_sa(val)
            if vs.ndim == 0:
                t = T.fresh_index(m._shape[0])
                v.assign(vs, cond=lambda idx: T.tany([t], [m._shape[0]], T.eq(m.at((P(t),)), idx[jj])))
                return
            # concrete length
            c = m._shape[0].const()
            if c is not None:
                vshape = list(v._shape)
                vshape[jj] = m._shape[0]
                vv = broadcast_to(vs, vshape)
                for q in range(int(c)):
                    kq = list(ks)
                    kq[j] = Sc(m.at((P(q),)), 'i')
                    w = basic_view(a, kq)
                    sub = SA.make(w._shape, lambda idx, q=q: vv.at(idx[:jj] + (P(q),) + idx[jj:]), vv.kind)
                    w.assign(sub)
                return
        raise Unsupported("fancy assignment")
    # several index vectors of one length, a scalar value
    vs = val if isinstance(val, SA) else to_sa(val)
    if len(arrs) == len(ks) == a.ndim and vs.ndim == 0 and all(m.kind == 'i' and m.ndim == 1 for m in arrs):
        n = arrs[0]._shape[0]
        for j, m in enumerate(arrs):
            if not same_dim(dimv(m._shape[0]), dimv(n)):
                raise IndexError("shape mismatch: indexing arrays could not be broadcast together")
            check_bounds(m, a._shape[j])
        t = T.fresh_index(n)

        def cond(idx):
            c = ONE
            for m, i in zip(arrs, idx):
                c = c * T.eq(m.at((P(t),)), i)
            return T.tany([t], [n], c)
        a.assign(vs, cond=cond)
        return
    raise Unsupported("fancy assignment")


def rank_at(l, x):
    """number of True strictly before x (the position of x in the compressed array)"""
    return T.rebuild_app('nzrank', (l, x), 'i')


def nz_lam(m):
    """if m is exactly [nzpos(l, k)]_k for a mask l, return l"""
    v = T.fresh_index(m._shape[0])
    b = m.at((P(v),))
    a = b.single_atom()
    if a is not None and a.head == 'app' and a.args[0] == 'nzpos' and a.args[2] is P(v):
        return a.args[1]
    return None


def _rank_facts(atom):
    l, x = atom.args[1], atom.args[2]
    p = P(atom)
    here = T.open_lam(l, [x]) * T.ge(x, ZERO) * T.lt(x, l.dims[0])
    return [T.lor(T.lnot(here), T.ge(p, ZERO) * T.lt(p, _lam_count(l)) *
                  T.eq(T.rebuild_app('nzpos', (l, p), 'i'), x))]


def _rank_rewrite(args, sort):
    l, x = args
    vs, b = T.open_lam(l)
    if b is ONE:
        return x
    a = x.single_atom()
    if a is not None and a.head == 'app' and a.args[0] == 'nzpos' and a.args[1] is l:
        return a.args[2]
    return None


T.REWRITE['nzrank'] = _rank_rewrite
PR.APPFACTS['nzrank'] = _rank_facts


# ------------------------------------------------------------ reshape / squeeze

def prod(ps):
    r = ONE
    for p in ps:
        r = r * p
    return r


def reshape(a, shape):
    dims = [None if (isinstance(s, int) and s == -1) else dimp(s) for s in shape]
    tot = prod(a._shape)
    if any(d is None for d in dims):
        known = prod([d for d in dims if d is not None])
        q = exact_div(tot, known)
        if q is None:
            raise Unsupported("reshape -1 of symbolic shape")
        dims = [q if d is None else d for d in dims]
    ntot = prod(dims)
    if ntot is not tot:
        if not ctx().branch(T.eq(tot, ntot)):
            raise ValueError("cannot reshape array")
    old, new = a._shape, tuple(dims)
    if len(old) == len(new) and all(x is y for x, y in zip(old, new)):
        return a.view(new, lambda i: i, lambda b: (ONE, b))
    # drop/add unit dims only
    o1 = [d for d in old if d.const() != 1]
    n1 = [d for d in new if d.const() != 1]
    if len(o1) == len(n1) and all(x is y for x, y in zip(o1, n1)):
        def fwd(idx):
            it = iter([i for i, d in zip(idx, new) if d.const() != 1])
            return tuple(ZERO if d.const() == 1 else next(it) for d in old)

        def inv(b):
            it = iter([i for i, d in zip(b, old) if d.const() != 1])
            return ONE, tuple(ZERO if d.const() == 1 else next(it) for d in new)
        return a.view(new, fwd, inv)
    # common prefix / suffix dims stay; the middle is re-linearised
    i = 0
    while i < len(old) and i < len(new) and old[i] is new[i]:
        i += 1
    j = 0
    while j < len(old) - i and j < len(new) - i and old[len(old) - 1 - j] is new[len(new) - 1 - j]:
        j += 1
    om, nm = old[i:len(old) - j], new[i:len(new) - j]

    def lin(idx, dims):
        r = ZERO
        for x, d in zip(idx, dims):
            r = r * d + x
        return r

    def delin(k, dims):
        out = []
        for d in reversed(dims[1:]):
            q = T.fdiv(k, d)
            out.append(k - d * q)
            k = q
        if dims:
            out.append(k)
        return tuple(reversed(out))

    def fwd(idx):
        return idx[:i] + delin(lin(idx[i:len(new) - j], nm), om) + (idx[len(new) - j:] if j else ())

    def inv(b):
        return ONE, b[:i] + delin(lin(b[i:len(old) - j], om), nm) + (b[len(old) - j:] if j else ())
    return a.view(new, fwd, inv)


def exact_div(p, q):
    """p / q when the division is exact as polynomials (q a monomial)"""
    c = q.const()
    if c == 1:
        return p
    if len(q.terms) == 1:
        qm, qc = q.terms[0]
        out = {}
        for m, c in p.terms:
            d = dict(m)
            for a, e in qm:
                if d.get(a, 0) < e:
                    return None
                d[a] -= e
                if d[a] == 0:
                    del d[a]
            cc = c / qc
            if cc.denominator != 1:
                return None
            out[tuple(sorted(d.items(), key=lambda t: t[0].uid))] = cc
        return T._from_dict(out)
    # general: try p = q * r by leading-term division with few terms
    r = ZERO
    rest = p
    for _ in range(8):
        if rest is ZERO:
            return r
        lm, lc = q.terms[-1]
        done = False
        for m, c in rest.terms:
            d = dict(m)
            if all(d.get(a, 0) >= e for a, e in lm):
                for a, e in lm:
                    d[a] -= e
                    if d[a] == 0:
                        del d[a]
                t = T.mono_poly(tuple(sorted(d.items(), key=lambda t: t[0].uid)), c / lc)
                nr = rest - t * q
                if len(nr.terms) < len(rest.terms) + len(q.terms):
                    r, rest, done = r + t, nr, True
                    break
        if not done:
            return None
    return r if rest is ZERO else None


def squeeze(a, axis=None):
    if not isinstance(a, SA):
        return a
    if axis is not None:
        ax = [x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
        drop = set()
        for x in ax:
            if not ctx().branch(T.eq(a._shape[x], ONE)):
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
            drop.add(x)
    else:
        drop = set()
        for j, d in enumerate(a._shape):
            if d.const() is not None:
                if d.const() == 1:
                    drop.add(j)
            elif ctx().branch(T.eq(d, ONE)):
                drop.add(j)
    keep = [j for j in range(a.ndim) if j not in drop]
    if len(keep) == a.ndim:
        return a

    def fwd(idx):
        it = iter(idx)
        return tuple(ZERO if j in drop else next(it) for j in range(a.ndim))

    def inv(b):
        return ONE, tuple(b[j] for j in keep)
    return a.view([a._shape[j] for j in keep], fwd, inv)


# ------------------------------------------------------------ symbolic sequences

class SymSeq:
    """symbolic-length Python sequence: n (Poly) and elem(k Poly) -> value"""

    def __init__(self, n, elem):
        self.n = n
        self.elem = elem

    def to_sa(self):
        k = T.fresh_index(self.n)
        v = self.elem(P(k))
        if isinstance(v, Sc):
            return SA.make((dimv(self.n),), lambda idx: T.subst(v.p, {k.args[0]: idx[0]}), v.kind)
        if isinstance(v, SA):
            inner = v

            def f(idx):
                return T.subst(inner.at(idx[1:]), {k.args[0]: idx[0]})
            return SA.make((dimv(self.n),) + inner.shape, f, inner.kind)
        raise Unsupported("array of sequence")

    def __len__(self):
        c = self.n.const()
        if c is None:
            raise Unsupported("native len")
        return int(c)

    def __iter__(self):
        c = self.n.const()
        if c is None:
            raise Unsupported("native iteration of symbolic sequence")
        return iter([self.elem(P(i)) for i in range(int(c))])

    def __getitem__(self, i):
        if isinstance(i, slice):
            st, n, step = norm_slice(i, self.n)
            if step != 1:
                raise Unsupported("slice step")
            return SymSeq(n, lambda k: self.elem(st + k))
        return self.elem(norm_index(i, self.n))

    def __bool__(self):
        return ctx().branch(T.ge(self.n, ONE))


_install()
