"""Term algebra of the verifier.

A value is a polynomial over the rationals in interned *atoms*:

  Var     free variable (int or real), optionally with an integer range [lo, hi)
  App     uninterpreted / opaque function applied to scalar polys or to Lam
          (array-valued) arguments
  Sum     sum_{binders} monomial  (always in a connected, flattened, alpha- and
          permutation-canonical form)
  Ind     0/1 indicator of an atomic condition (EQ0, GE0, ANY, BAPP)
  Exp     exp of a monomial;   Log, Sqrt, Inv, Fdiv, Floor

Booleans are polynomials with values in {0, 1}: and = product, not = 1 - b.
Everything is exact (Fractions): floating point is treated as real arithmetic.
"""
from fractions import Fraction
from itertools import permutations, product as iproduct
import math
import itertools

F0, F1 = Fraction(0), Fraction(1)


class TermError(Exception):
    pass


class Atom:
    __slots__ = ("head", "args", "sort", "uid", "fv", "height", "lo", "hi", "nice")

    def __repr__(self):
        return show_atom(self)


_intern = {}
_uid = itertools.count(1)
_fresh = itertools.count(1)


def _mk(head, args, sort, fv, height, lo=None, hi=None):
    k = (head, args, sort)
    a = _intern.get(k)
    if a is None:
        a = Atom()
        a.head, a.args, a.sort, a.uid = head, args, sort, next(_uid)
        a.fv, a.height, a.lo, a.hi = fv, height, lo, hi
        _intern[k] = a
    return a


class Poly:
    """Immutable polynomial.  terms: tuple of (mono, coeff) sorted."""
    __slots__ = ("terms", "uid", "_fv", "_h", "_sort")

    def __repr__(self):
        return show(self)

    @property
    def fv(self):
        if self._fv is None:
            s = frozenset()
            for m, _ in self.terms:
                for a, _e in m:
                    s = s | a.fv
            self._fv = s
        return self._fv

    @property
    def height(self):
        if self._h is None:
            h = 0
            for m, _ in self.terms:
                for a, _e in m:
                    if a.height > h:
                        h = a.height
            self._h = h
        return self._h

    @property
    def sort(self):
        if self._sort is None:
            s = 'i'
            for m, c in self.terms:
                if c.denominator != 1:
                    s = 'r'
                for a, e in m:
                    if a.sort == 'r' or e < 0:
                        s = 'r'
            self._sort = s
        return self._sort

    # --- queries
    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and not self.terms[0][0])

    def const(self):
        if not self.terms:
            return F0
        if len(self.terms) == 1 and not self.terms[0][0]:
            return self.terms[0][1]
        return None

    def single_atom(self):
        """the atom a if self is exactly a, else None"""
        if len(self.terms) == 1:
            m, c = self.terms[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    # --- arithmetic
    def __add__(self, o):
        return add(self, P(o))
    __radd__ = __add__

    def __neg__(self):
        return _from_dict({m: -c for m, c in self.terms})

    def __sub__(self, o):
        return add(self, -P(o))

    def __rsub__(self, o):
        return add(P(o), -self)

    def __mul__(self, o):
        return mul(self, P(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, inv(P(o)))

    def __rtruediv__(self, o):
        return mul(P(o), inv(self))

    def __pow__(self, k):
        return power(self, k)


_pintern = {}
_puid = itertools.count(1)


def _from_dict(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                         key=lambda t: tuple((a.uid, e) for a, e in t[0])))
    p = _pintern.get(items)
    if p is None:
        p = Poly()
        p.terms, p.uid = items, next(_puid)
        p._fv = p._h = p._sort = None
        _pintern[items] = p
    return p


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return _from_dict({((x, 1),): F1})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return _from_dict({(): Fraction(x)})
    if isinstance(x, Fraction):
        return _from_dict({(): x})
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise TermError("non-finite constant")
        # exact decimal reading of literals (0.1 is one tenth), reals not doubles
        return _from_dict({(): Fraction(repr(x))})
    try:
        import numpy as _np
        if isinstance(x, _np.integer):
            return P(int(x))
        if isinstance(x, _np.floating):
            return P(float(x))
        if isinstance(x, _np.bool_):
            return P(bool(x))
    except ImportError:
        pass
    raise TermError("not a term: %r" % (x,))


ZERO = _from_dict({})
ONE = _from_dict({(): F1})


def add(a, b):
    if not a.terms:
        return b
    if not b.terms:
        return a
    d = dict(a.terms)
    for m, c in b.terms:
        c2 = d.get(m, F0) + c
        if c2 == 0:
            d.pop(m, None)
        else:
            d[m] = c2
    return _from_dict(d)


def add_many(ps):
    d = {}
    for p in ps:
        for m, c in p.terms:
            d[m] = d.get(m, F0) + c
    return _from_dict(d)


_mulmemo = {}


def mul(a, b):
    if not a.terms or not b.terms:
        return ZERO
    ca, cb = a.const(), b.const()
    if ca is not None:
        if ca == 1:
            return b
        return _from_dict({m: c * ca for m, c in b.terms})
    if cb is not None:
        if cb == 1:
            return a
        return _from_dict({m: c * cb for m, c in a.terms})
    k = (a.uid, b.uid) if a.uid < b.uid else (b.uid, a.uid)
    r = _mulmemo.get(k)
    if r is not None:
        return r
    if len(a.terms) * len(b.terms) > 200000:
        raise TermError("polynomial too large")
    d = {}
    extra = []
    for m1, c1 in a.terms:
        for m2, c2 in b.terms:
            r = _mulmono(m1, m2)
            if r is None:
                continue
            if isinstance(r, Poly):
                extra.append(mul(r, P(c1 * c2)))
            else:
                d[r] = d.get(r, F0) + c1 * c2
    r = _from_dict(d)
    if extra:
        r = add_many([r] + extra)
    _mulmemo[k] = r
    return r


def _mulmono(m1, m2):
    """product of monomials: a mono tuple, a Poly (when rewriting), or None (0)"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    special = None
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        if a.head == 'ind' and e > 1:
            d[a] = 1
        elif a.head == 'sqrt' and abs(e) >= 2:
            q = int(e / 2)  # toward zero
            del d[a]
            if e - 2 * q:
                d[a] = e - 2 * q
            special = (a.args[0], q) if special is None else special
            if special[0] is not a.args[0]:
                raise TermError("sqrt")
    m = tuple(sorted(d.items(), key=lambda t: t[0].uid))
    # contradictory indicators on the same expression are left to the prover
    if special is not None:
        base = _from_dict({m: F1})
        arg, q = special
        return mul(base, power(arg, q))
    return m


def mono_poly(m, c=F1):
    return _from_dict({m: c})


def power(p, k):
    if isinstance(k, Fraction) and k.denominator == 1:
        k = int(k)
    if isinstance(k, float) and k == int(k):
        k = int(k)
    if isinstance(k, int):
        if k < 0:
            return inv(power(p, -k))
        r = ONE
        b = p
        while k:
            if k & 1:
                r = mul(r, b)
            k >>= 1
            if k:
                b = mul(b, b)
        return r
    if k in (0.5, Fraction(1, 2)):
        return sqrt(p)
    raise TermError("power %r" % (k,))


def _content(p):
    """p = c * q with q's leading coefficient 1"""
    if not p.terms:
        return F1, p
    c = p.terms[0][1]
    return c, _from_dict({m: x / c for m, x in p.terms})


def _can_neg_pow(a):
    return a.head not in ('ind',)


def inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            raise TermError("division by zero")
        return P(1 / c)
    if len(p.terms) == 1:
        m, c = p.terms[0]
        if all(_can_neg_pow(a) for a, _ in m):
            res = []
            inner = ONE
            for a, e in m:
                if a.head == 'inv':
                    inner = mul(inner, power(a.args[0], e))
                else:
                    res.append((a, -e))
            return mul(mono_poly(tuple(res), 1 / c), inner)
    # one indicator: 1/(x + [b] y) = [b]/(x + y) + (1 - [b])/x
    inds = {a for m, _ in p.terms for a, _ in m if a.head == 'ind'}
    if len(inds) == 1 and len(p.terms) <= 8:
        b, = inds
        off = _from_dict({m: x for m, x in p.terms if not any(a is b for a, _ in m)})
        on = ZERO
        for m, x in p.terms:
            on = on + mono_poly(tuple((a, e) for a, e in m if a is not b), x)
        if on is not ZERO and off is not ZERO:
            return mul(P(b), inv(on)) + mul(ONE - P(b), inv(off))
    # pull out common monomial factor (invertible atoms only)
    g = _common(p)
    if g:
        gm = mono_poly(tuple(g))
        gi = mono_poly(tuple((a, -e) for a, e in g))
        q = mul(p, gi)
        c, q = _content(q)
        a = _mk('inv', (q,), 'r', q.fv, q.height)
        return mul(mul(P(a), gi), P(1 / c))
    c, q = _content(p)
    a = _mk('inv', (q,), 'r', q.fv, q.height)
    return mul(P(a), P(1 / c))


def _common(p):
    """common invertible monomial factor: for each atom the minimal exponent
    (over all monomials, absent = 0)"""
    atoms = {}
    for m, _ in p.terms:
        for a, e in m:
            atoms.setdefault(a, None)
    g = []
    for a in atoms:
        if not _can_neg_pow(a) or a.head == 'inv':
            continue
        es = [dict(m).get(a, 0) for m, _ in p.terms]
        lo = min(es)
        if lo != 0:
            g.append((a, lo))
    return sorted(g, key=lambda t: t[0].uid)


# ---------------------------------------------------------------- atoms

def Var(name, sort='r', lo=None, hi=None):
    """lo/hi: Poly or int; lo <= v < hi (ints)"""
    k = ('var', (name,), sort)
    a = _intern.get(k)
    if a is None:
        a = _mk('var', (name,), sort, frozenset([name]), 0)
        a.lo = None if lo is None else P(lo)
        a.hi = None if hi is None else P(hi)
        _varreg[name] = a
    elif a.lo is not (None if lo is None else P(lo)) or a.hi is not (None if hi is None else P(hi)):
        raise TermError("variable %s redeclared with other bounds" % name)
    return a


def forget_inputs():
    for n in [n for n in _varreg if '$' not in n]:
        a = _varreg.pop(n)
        _intern.pop(('var', (n,), a.sort), None)


_varreg = {}


def fresh_name(base='i'):
    return "%s$%d" % (base, next(_fresh))


def fresh_index(dim, base='i'):
    return Var(fresh_name(base), 'i', 0, dim)


class Lam:
    """closed array-valued argument: dims (Polys) and body over bound vars"""
    __slots__ = ("dims", "body", "uid", "fv", "height", "sort")

    def __repr__(self):
        return "lam%s.%s" % (list(self.dims), show(self.body))


_lintern = {}
_luid = itertools.count(1)


def _bound(h, j):
    name = "#%d.%d" % (h, j)
    return _mk('var', (name,), 'i', frozenset(), h)


def mklam(vars, dims, body):
    """close `body` over index Var atoms `vars`"""
    h = max([body.height] + [d.height for d in dims] + [0]) + 1
    names = {v.args[0]: P(_bound(h, j)) for j, v in enumerate(vars)}
    b = subst(body, names, binders=False)
    k = (tuple(dims), b, h)
    l = _lintern.get(k)
    if l is None:
        l = Lam()
        l.dims, l.body, l.uid = tuple(dims), b, next(_luid)
        fv = b.fv
        for d in dims:
            fv = fv | d.fv
        l.fv, l.height, l.sort = fv, h, b.sort
        _lintern[k] = l
    return l


def open_lam(l, idx=None):
    """instantiate: returns (vars, body) with fresh vars or body at idx"""
    if idx is None:
        vs = [fresh_index(d) for d in l.dims]
        idx = [P(v) for v in vs]
        return vs, _open_body(l.body, l.height, idx)
    return _open_body(l.body, l.height, idx)


def _open_body(body, h, idx):
    return _subst_bound(body, {_bound(h, j): P(i) for j, i in enumerate(idx)})


def App(head, args, sort='r'):
    args = tuple(a if isinstance(a, (Lam, str)) else P(a) for a in args)
    fv = frozenset()
    h = 0
    for a in args:
        if isinstance(a, str):
            continue
        fv = fv | a.fv
        h = max(h, a.height)
    return P(_mk('app', (head,) + args, sort, fv, h))


# -------------------------------------------------- conditions

def _gcd_content_int(p):
    g = 0
    for m, c in p.terms:
        if c.denominator != 1:
            return None
        g = math.gcd(g, abs(int(c)))
    return g or 1


def _is_int_expr(p):
    return p.sort == 'i'


def eq(a, b):
    return eq0(P(a) - P(b))


def eq0(p):
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    g = None
    if _is_int_expr(p):
        g = _gcd_content_int(p)
        c0 = dict(p.terms).get((), F0)
        r = _mono_pair(p, True) if c0 == 0 else None
        if r is not None:
            return r
        gv = 0
        for m, c in p.terms:
            if m:
                gv = math.gcd(gv, abs(int(c)))
        if gv and int(c0) % gv != 0:
            return ZERO
    # exactly one distinct value: all equal the first
    if len(p.terms) == 2:
        for m, c in p.terms:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].head == 'app' and m[0][0].args[0] == '+nuniq':
                l = m[0][0].args[1]
                if len(l.dims) == 1 and dict(p.terms).get((), F0) == -c:
                    v = fresh_index(l.dims[0])
                    return ge(l.dims[0], ONE) * tall([v], [l.dims[0]], eq(open_lam(l, [P(v)]), open_lam(l, [ZERO])))
    # boolean polys: [b]==0 etc.
    r = _bool_eq0(p)
    if r is not None:
        return r
    r = _sum_eq0(p)
    if r is not None:
        return r
    if not _is_int_expr(p):
        r = _factor_eq0(p)
        if r is not None:
            return r
    lead = p.terms[-1][1]
    if _is_int_expr(p):
        p = _from_dict({m: c / (g if lead > 0 else -g) for m, c in p.terms})
        lo = lower(p)
        if lo is not None and lo > 0:
            return ZERO
        lo = lower(-p)
        if lo is not None and lo > 0:
            return ZERO
    else:
        p = _from_dict({m: c / lead for m, c in p.terms})
    if positive(p) or positive(-p):
        return ZERO
    return ind('eq', p)


def _factor_eq0(p):
    """zero products and conditional expressions: [a*b = 0] is [a = 0] or
    [b = 0]; inverses are never zero; sqrt(x) = 0 iff x = 0"""
    if len(p.terms) > 16:
        return None
    a = p.single_atom()
    if a is not None:
        if a.head == 'sqrt':
            return eq0(a.args[0])
        return None
    common = dict(p.terms[0][0])
    for m, _ in p.terms[1:]:
        mm = dict(m)
        common = {x: min(e, mm[x]) if e > 0 else max(e, mm[x]) for x, e in common.items()
                  if x in mm and (e > 0) == (mm[x] > 0)}
        if not common:
            break
    if common:
        rest = {}
        for m, c in p.terms:
            k = tuple((x, e - common.get(x, 0)) for x, e in m if e - common.get(x, 0))
            rest[k] = rest.get(k, 0) + c
        r = eq0(_from_dict(rest))
        for x, e in common.items():
            if e > 0 and not (x.head == 'inv' or positive(P(x))):
                r = lor(r, eq0(P(x)))
        return r
    inds = {x for m, _ in p.terms for x, e in m if x.head == 'ind'}
    if inds and len(inds) <= 2:
        b = min(inds, key=lambda x: x.uid)
        p1, p0 = {}, {}
        for m, c in p.terms:
            k = tuple((x, e) for x, e in m if x is not b)
            p1[k] = p1.get(k, 0) + c
            if len(k) == len(m):
                p0[k] = p0.get(k, 0) + c
        return P(b) * eq0(_from_dict(p1)) + (ONE - P(b)) * eq0(_from_dict(p0))
    return None


def _sum_body(p):
    """p = SUM_{v<dims} B(v) written with sums over identical dims and a
    multiple of their product: -> (vars, dims, B) or None"""
    sums = []
    rest = []
    for m, c in p.terms:
        if len(m) == 1 and m[0][0].head == 'sum' and m[0][1] == 1:
            sums.append((m[0][0], c))
        else:
            rest.append((m, c))
    if not sums or len(sums) > 6:
        return None
    dims = sums[0][0].args[0]
    if any(len(a.args[0]) != len(dims) or any(x is not y for x, y in zip(a.args[0], dims)) for a, _ in sums):
        return None
    k = ZERO
    if rest:
        prod = ONE
        for d in dims:
            prod = prod * d
        r = _from_dict(dict(rest))
        if len(prod.terms) != 1:
            # dims like a+b: compare up to a constant factor
            f = r.terms[0][1] / prod.terms[0][1]
        else:
            f = r.terms[0][1] / prod.terms[0][1]
        if r is not prod * P(f):
            return None
        k = P(f)
    vs, b0 = open_sum(sums[0][0])
    tot = k + P(sums[0][1]) * b0
    for a, c in sums[1:]:
        vs2, b = open_sum(a)
        b = subst(b, {v.args[0]: P(w) for v, w in zip(vs2, vs)})
        tot = tot + P(c) * b
    return vs, dims, tot


def _has_sum(p):
    return any(len(m) == 1 and m[0][0].head == 'sum' for m, _ in p.terms)


def _sum_eq0(p):
    if not _has_sum(p):
        return None
    r = _sum_body(p)
    if r is None:
        return None
    vs, dims, b = r
    if b is ZERO:
        return ONE
    if _pointwise_nonneg(b) or _pointwise_nonneg(-b):
        return ONE - tany(vs, dims, ONE - eq0(b))
    return None


def _pointwise_nonneg(b):
    if nonneg(b):
        return True
    if _is_int_expr(b):
        r = _bool_ge0(b)
        return r is ONE
    return False


def _sum_ge0(p):
    """integer p: at least one / all / none of 0-1 terms"""
    if not _has_sum(p):
        return None
    r = _sum_body(p + ONE)
    if r is not None:
        vs, dims, b = r
        if b.const() is None and _pointwise_nonneg(b):
            return tany(vs, dims, ONE - eq0(b))
    r = _sum_body(p)
    if r is not None:
        vs, dims, b = r
        if b.const() is None and _pointwise_nonneg(-b):
            return ONE - tany(vs, dims, ONE - eq0(b))
    return None


def _bool_eq0(p):
    """p a linear combination of indicator monomials with a const: decide by
    enumeration when few atoms"""
    atoms = []
    for m, c in p.terms:
        for a, e in m:
            if a.head != 'ind':
                return None
            if a not in atoms:
                atoms.append(a)
    if len(atoms) > 4:
        return None
    out = ZERO
    for vals in iproduct((0, 1), repeat=len(atoms)):
        env = dict(zip(atoms, vals))
        t = F0
        for m, c in p.terms:
            x = c
            for a, e in m:
                x *= env[a]
            t += x
        if t == 0:
            q = ONE
            for a, v in env.items():
                q = mul(q, P(a) if v else ONE - P(a))
            out = add(out, q)
    return out


def ind(kind, p):
    return P(_mk('ind', (kind, p), 'i', p.fv, p.height))


def ge(a, b):
    return ge0(P(a) - P(b))


def gt(a, b):
    return lnot(ge0(P(b) - P(a)))


def le(a, b):
    return ge0(P(b) - P(a))


def lt(a, b):
    return lnot(ge0(P(a) - P(b)))


def ge0(p):
    c = p.const()
    if c is not None:
        return ONE if c >= 0 else ZERO
    if _is_int_expr(p):
        r = _bool_ge0(p)
        if r is not None:
            return r
        r = _sum_ge0(p)
        if r is not None:
            return r
        r = _mono_pair(p)
        if r is not None:
            return r
        gv = 0
        for m, c in p.terms:
            if m:
                gv = math.gcd(gv, abs(int(c)))
        c0 = int(dict(p.terms).get((), F0))
        if gv > 1:
            d = {m: c / gv for m, c in p.terms if m}
            d[()] = Fraction(c0 // gv)
            p = _from_dict(d)
        lo = lower(p)
        if lo is not None and lo >= 0:
            return ONE
        up = lower(-p)
        if up is not None and up > 0:
            return ZERO
        # at the end of its range: an (in)equality test
        if up == 0:
            return eq0(p)
        if lo == -1:
            return ONE - eq0(p + ONE)
        # canonical orientation: p >= 0 vs not(-p-1 >= 0)
        if p.terms[-1][1] < 0:
            return ONE - ind('ge', -p - ONE)
        return ind('ge', p)
    if nonneg(p):
        return ONE
    if positive(-p):
        return ZERO
    p, _ = clear_pos_den(p)
    if p.const() is not None:
        return ONE if p.const() >= 0 else ZERO
    g = _pos_common(p)
    if g:
        p = mul(p, mono_poly(tuple((a, -e) for a, e in g)))
    lead = abs(p.terms[-1][1])
    p = _from_dict({m: c / lead for m, c in p.terms})
    return ind('ge', p)


MONOTONE = ('nzpos',)    # strictly increasing in the last argument
INJECTIVE = ('argsort', 'rng_perm', 'rng_perminv')


def _mono_pair(p, equal=False):
    """f(a) - f(b) >= 0 or >= 1 for a strictly increasing integer function f"""
    t = [(m[0][0], c) for m, c in p.terms if len(m) == 1 and m[0][1] == 1 and m[0][0].head == 'app'
         and (m[0][0].args[0] in MONOTONE or equal and m[0][0].args[0] in INJECTIVE)]
    if len(t) != 2 or len(p.terms) > 3 or t[0][1] != -t[1][1] or t[0][0].args[:-1] != t[1][0].args[:-1]:
        return None
    rest = [(m, c) for m, c in p.terms if not m]
    if len(rest) != len(p.terms) - 2:
        return None
    g = abs(t[0][1])
    c0 = rest[0][1] if rest else F0
    a, b = (t[0][0], t[1][0]) if t[0][1] > 0 else (t[1][0], t[0][0])
    if equal:
        return eq0(a.args[-1] - b.args[-1])
    k = math.floor(c0 / g)
    if k in (0, -1):
        return ge0(a.args[-1] - b.args[-1] + P(k))
    return None


def _bool_ge0(p):
    atoms = []
    for m, c in p.terms:
        for a, e in m:
            if a.head != 'ind':
                return None
            if a not in atoms:
                atoms.append(a)
    if len(atoms) > 4:
        return None
    out = ZERO
    for vals in iproduct((0, 1), repeat=len(atoms)):
        env = dict(zip(atoms, vals))
        t = F0
        for m, c in p.terms:
            x = c
            for a, e in m:
                x *= env[a]
            t += x
        if t >= 0:
            q = ONE
            for a, v in env.items():
                q = mul(q, P(a) if v else ONE - P(a))
            out = add(out, q)
    return out


def lnot(b):
    return ONE - P(b)


def land(*bs):
    r = ONE
    for b in bs:
        r = mul(r, P(b))
    return r


def lor(*bs):
    r = ZERO
    for b in bs:
        b = P(b)
        r = r + b - r * b
    return r


def ite(c, a, b):
    c = P(c)
    a, b = P(a), P(b)
    k = c.const()
    if k is not None:
        return a if k != 0 else b
    if a is b:
        return a
    # (1-[a>=b]) style: prefer direct product
    return b + c * (a - b)


def tmax(a, b):
    return ite(ge(a, b), a, b)


def tmin(a, b):
    return ite(ge(a, b), b, a)


def tabs(a):
    a = P(a)
    if nonneg(a):
        return a
    return ite(ge0(a), a, -a)


def sign(a):
    a = P(a)
    return gt(a, 0) - lt(a, 0)


def bapp(head, args):
    """opaque boolean"""
    a = App(head, args, 'i')
    return ind('b', a)


def tany(vars, dims, body):
    """exists vars in dims: body (0/1 poly)"""
    c = body.const()
    if c is not None:
        if c == 0:
            return ZERO
        r = ONE
        for d in dims:
            r = r * ge(d, 1)
        return r
    # drop vars not used
    used = [(v, d) for v, d in zip(vars, dims) if v.args[0] in body.fv]
    pre = ONE
    for v, d in zip(vars, dims):
        if v.args[0] not in body.fv:
            pre = pre * ge(d, 1)
    if not used:
        return pre * body
    if all(d.const() is not None and d.const() <= 8 for _, d in used):
        r = ZERO
        for vals in iproduct(*[range(int(d.const())) for _, d in used]):
            t = subst(body, {v.args[0]: P(x) for (v, _), x in zip(used, vals)})
            r = lor(r, t)
        return pre * r
    if NZ:
        for k, (v, d) in enumerate(used):
            r = nz_reindex(v, d, body)
            if r is not None:
                j, dj, mask, nb = r
                rest = [x for i, x in enumerate(used) if i != k] + [(j, dj)]
                return pre * tany([x for x, _ in rest], [x for _, x in rest], mask * nb)
    if len(body.terms) == 1 and body.terms[0][1] == 1:
        m = body.terms[0][0]
        names = {v.args[0] for v, _ in used}
        free = tuple(x for x in m if not (x[0].fv & names))
        if free:
            return pre * mono_poly(free) * tany([v for v, _ in used], [d for _, d in used],
                                                mono_poly(tuple(x for x in m if x[0].fv & names)))
        for k, (v, d) in enumerate(used):
            for a, e in m:
                if a.head == 'ind' and a.args[0] == 'eq' and v.args[0] in a.fv:
                    sol = solve_lin(a.args[1], v)
                    if sol is None and PERM:
                        sol = solve_perm(a.args[1], v)
                    if sol is not None and not any(v.args[0] in dd.fv for _, dd in used):
                        val = subst(mono_poly(tuple(x for x in m if x[0] is not a)), {v.args[0]: sol})
                        rest = [x for i, x in enumerate(used) if i != k]
                        return pre * tany([x for x, _ in rest], [x for _, x in rest], ge0(sol) * ge0(d - ONE - sol) * val)
    if PERM:
        for k, (v, d) in enumerate(used):
            r = perm_reindex(v, d, body)
            if r is not None:
                return pre * tany([r[0] if i == k else x for i, (x, _) in enumerate(used)], [x for _, x in used], r[1])
    vs = [v for v, _ in used]
    ds = [d for _, d in used]
    best = None
    if len(vs) > 1:
        for perm in permutations(range(len(vs))):
            l = mklam([vs[i] for i in perm], [ds[i] for i in perm], body)
            if best is None or l.uid < best.uid:
                best = l
    else:
        best = mklam(vs, ds, body)
    a = _mk('ind', ('any', best), 'i', best.fv, best.height)
    return pre * P(a)


def tall(vars, dims, body):
    return lnot(tany(vars, dims, lnot(body)))


# -------------------------------------------------- bounds

def lower(p, depth=6):
    """an integer/rational lower bound (Fraction) of a linear int expr, or None"""
    c = p.const()
    if c is not None:
        return c
    if depth == 0:
        return None
    # monomials all atoms nonneg with positive coeff -> >= const
    best = None
    allpos = True
    for m, c in p.terms:
        if not m:
            continue
        if c < 0 or not all(atom_nonneg(a) for a, _ in m):
            allpos = False
    if allpos:
        base = dict(p.terms).get((), F0)
        for m, c in p.terms:
            if m and len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a.head == 'var' and a.lo is not None:
                    lc = a.lo.const()
                    if lc is not None:
                        base += c * lc
            elif m and all(a.head == 'var' and a.lo is not None and
                           a.lo.const() is not None for a, _ in m):
                t = c
                for a, e in m:
                    t *= a.lo.const() ** e
                base += t
        best = base
        return best
    # substitute one variable by a bound
    for m, c in p.terms:
        for a, e in m:
            if a.head == 'var' and (a.lo is not None or a.hi is not None):
                n = a.args[0]
                # coefficient of a must have known sign and be linear
                co = ZERO
                rest = {}
                ok = True
                for m2, c2 in p.terms:
                    dd = dict(m2)
                    if a in dd:
                        if dd[a] != 1:
                            ok = False
                            break
                        m3 = tuple(x for x in m2 if x[0] is not a)
                        if any(n in x[0].fv for x in m3):
                            ok = False
                            break
                        co = co + mono_poly(m3, c2)
                    else:
                        if any(n in x[0].fv for x in m2):
                            ok = False
                            break
                        rest[m2] = c2
                if not ok:
                    continue
                cs = psign(co)
                if cs is None:
                    continue
                if cs > 0 and a.lo is not None:
                    q = _from_dict(rest) + co * a.lo
                elif cs < 0 and a.hi is not None:
                    q = _from_dict(rest) + co * (a.hi - ONE)
                else:
                    continue
                if q is p:
                    continue
                l = lower(q, depth - 1)
                if l is not None and (best is None or l > best):
                    best = l
                    if best >= 0:
                        return best
    return best


def psign(co):
    c = co.const()
    if c is not None:
        return 1 if c > 0 else (-1 if c < 0 else 0)
    if all(c >= 0 and all(atom_nonneg(a) for a, _ in m) for m, c in co.terms):
        return 1
    if all(c <= 0 and all(atom_nonneg(a) for a, _ in m) for m, c in co.terms):
        return -1
    return None


def atom_nonneg(a):
    h = a.head
    if h == 'var':
        if a.lo is not None:
            c = a.lo.const()
            return c is not None and c >= 0
        return False
    if h in ('exp', 'sqrt', 'ind'):
        return True
    if h == 'sum':
        return _mono_nonneg(a.args[1])
    if h == 'inv':
        return nonneg(a.args[0])
    if h == 'app':
        return a.args[0].startswith('+')
    if h == 'fdiv':
        return nonneg(a.args[0]) and positive(a.args[1])
    return False


def _mono_nonneg(body):
    return all(c > 0 and all(e % 2 == 0 or atom_nonneg(a) for a, e in m)
               for m, c in body.terms)


def nonneg(p):
    if all(c > 0 and all(e % 2 == 0 or atom_nonneg(a) for a, e in m)
           for m, c in p.terms):
        return True
    if p.sort == 'i':
        l = lower(p)
        return l is not None and l >= 0
    return False


def atom_positive(a):
    h = a.head
    if h == 'var':
        if a.lo is not None:
            c = a.lo.const()
            return c is not None and c > 0
        return a.args[0] in POSVARS
    if h == 'exp':
        return True
    if h == 'sum':
        # nonempty sum of positive terms
        if all(d.sort == 'i' and (lower(d) or 0) >= 1 for d in a.args[0]):
            return all(c > 0 and all(atom_positive(x) for x, e in m)
                       for m, c in a.args[1].terms)
        return False
    if h == 'inv':
        return positive(a.args[0])
    if h == 'sqrt':
        return positive(a.args[0])
    if h == 'app':
        return a.args[0] in POSVARS
    return False


POSVARS = set()


def positive(p):
    c = p.const()
    if c is not None:
        return c > 0
    pos = False
    for m, c in p.terms:
        if c <= 0:
            return p.sort == 'i' and (lower(p) or 0) > 0
        if all(atom_positive(a) for a, _ in m):
            pos = True
        elif not all(e % 2 == 0 or atom_nonneg(a) for a, e in m):
            return p.sort == 'i' and (lower(p) or 0) > 0
    return pos


def _pos_common(p):
    """common factor of surely positive atoms (so that dividing keeps signs)"""
    return [(a, e) for a, e in _common(p) if atom_positive(a)]


def clear_pos_den(p, free_of=frozenset()):
    """multiply by the surely positive denominators of p: (result, [(inverse atom, exponent)])"""
    out = []
    for _ in range(4):
        best = None
        for m, _c in p.terms:
            for a, e in m:
                if a.head == 'inv' and e > 0 and not a.fv & free_of and positive(a.args[0]):
                    if best is None or (a.uid, -e) < (best[0].uid, -best[1]):
                        best = (a, e)
        if best is None:
            break
        a, e = best
        q = a.args[0]
        r = ZERO
        for m, c in p.terms:
            d = dict(m)
            k = d.pop(a, 0)
            t = mono_poly(tuple(sorted(d.items(), key=lambda t: t[0].uid)), c)
            r = r + (mul(t, power(q, e - k)) if k <= e else t)
        p = r
        out.append((a, e))
    return p, out


# -------------------------------------------------- exp / log / sqrt / floor

def exp(p):
    p = P(p)
    r = ONE
    for m, c in p.terms:
        if not m:
            # exp of a constant: keep as exp(1)^c for integers
            if c.denominator == 1:
                a = _mk('exp', (ONE,), 'r', frozenset(), 0)
                r = mul(r, mono_poly(((a, int(c)),)))
            else:
                n = c.numerator
                base = P(Fraction(1, c.denominator))
                a = _mk('exp', (base,), 'r', frozenset(), 0)
                r = mul(r, mono_poly(((a, n),)))
            continue
        # exp(c * log q) = q^c
        if len(m) == 1 and m[0][0].head == 'log' and m[0][1] == 1 and c.denominator == 1:
            r = mul(r, power(m[0][0].args[0], int(c)))
            continue
        # indicator factors: exp([b] x) = 1 + [b](exp(x) - 1)
        inds = [(a, e) for a, e in m if a.head == 'ind']
        if inds:
            rest = tuple((a, e) for a, e in m if a.head != 'ind')
            r = mul(r, ONE + mono_poly(tuple(inds)) * (exp(mono_poly(rest, c)) - ONE))
            continue
        n, dd = c.numerator, c.denominator
        q = mono_poly(m, Fraction(1, dd))
        a = _mk('exp', (q,), 'r', q.fv, q.height)
        r = mul(r, mono_poly(((a, n),)))
    return r


def ln10():
    """log(10), kept as one symbol so that log10 and powers of ten cancel"""
    POSVARS.add('+ln10')
    return App('+ln10', (), 'r')


def log(p):
    p = P(p)
    c = p.const()
    if c is not None:
        if c <= 0:
            raise TermError("log of nonpositive constant")
        if c == 1:
            return ZERO
        return _logconst(c)
    # indicator ite(b, x, y): split only when p is [b](x-y)+y with one indicator atom
    if len(p.terms) == 1:
        m, c = p.terms[0]
        if c > 0 and all(atom_positive(a) for a, _ in m):
            r = _logconst(c)
            for a, e in m:
                r = r + P(e) * _logatom(a)
            return r
    g = _pos_common(p)
    r = ZERO
    if g:
        p = mul(p, mono_poly(tuple((a, -e) for a, e in g)))
        for a, e in g:
            r = r + P(e) * _logatom(a)
    # positive denominators: log(N/D) = log N - log D
    for m, _ in p.terms:
        for a, e in m:
            if a.head == 'inv' and positive(a.args[0]) and a.args[0].const() is None:
                out = []
                for m2, c2 in p.terms:
                    md = dict(m2)
                    k = md.get(a, 0)
                    if k > 1:
                        break
                    md.pop(a, None)
                    t = _from_dict({tuple(sorted(md.items(), key=lambda t: t[0].uid)): c2})
                    out.append(t if k else t * a.args[0])
                else:
                    return r + log(add_many(out)) - log(a.args[0])
    c = p.terms[0][1]
    cc = abs(c)
    if cc != 1:
        p = _from_dict({m: x / cc for m, x in p.terms})
        r = r + _logconst(cc)
    a = _mk('log', (p,), 'r', p.fv, p.height)
    return r + P(a)


def _logconst(c):
    if c == 1:
        return ZERO
    r = ZERO
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for q, e in _factor(n):
            a = _mk('log', (P(q),), 'r', frozenset(), 0)
            r = r + P(s * e) * P(a)
    return r


def _factor(n):
    out = []
    d = 2
    while d * d <= n and d < 100000:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        if e:
            out.append((d, e))
        d += 1
    if n > 1:
        out.append((n, 1))
    return out


def _logatom(a):
    if a.head == 'exp':
        return a.args[0]
    if a.head == 'inv':
        return -log(a.args[0])
    p = P(a)
    return P(_mk('log', (p,), 'r', p.fv, p.height))


def sqrt(p):
    p = P(p)
    c = p.const()
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return P(Fraction(n, d))
    return P(_mk('sqrt', (p,), 'r', p.fv, p.height))


def fdiv(a, b):
    a, b = P(a), P(b)
    ca, cb = a.const(), b.const()
    if cb == 1 and a.sort == 'i':
        return a
    if ca is not None and cb is not None and cb != 0:
        return P(math.floor(ca / cb))
    if a.sort == 'i' and b.sort == 'i':
        # pull out multiples of b: a = q*b + r, with 0 <= r < b
        if len(b.terms) == 1:
            bm, bc = b.terms[0]
            bd = dict(bm)
            q = {}
            r = {}
            for m, c in a.terms:
                d = dict(m)
                ok = (c / bc).denominator == 1 and bool(m)
                if bm:
                    for x, e in bm:
                        if d.get(x, 0) < e:
                            ok = False
                if ok:
                    for x, e in bm:
                        d[x] -= e
                        if d[x] == 0:
                            del d[x]
                    q[tuple(sorted(d.items(), key=lambda t: t[0].uid))] = c / bc
                else:
                    r[m] = c
            if not bm:
                # constant divisor: also split constant part
                c0 = r.pop((), F0)
                if c0:
                    k = math.floor(c0 / bc)
                    q[()] = q.get((), F0) + k
                    if c0 - k * bc:
                        r[()] = c0 - k * bc
            rp, qp = _from_dict(r), _from_dict(q)
            if rp is ZERO:
                return qp
            lo = lower(rp)
            up = lower(b - ONE - rp)
            if lo is not None and lo >= 0 and up is not None and up >= 0:
                return qp
            if q:
                return qp + fdiv(rp, b)
        else:
            lo = lower(a)
            up = lower(b - ONE - a)
            if lo is not None and lo >= 0 and up is not None and up >= 0:
                return ZERO
            # division with remainder by each non-constant monomial of b
            for bm, bc in sorted(b.terms, key=lambda t: -sum(e for _, e in t[0])):
                if not bm or abs(bc) != 1:
                    continue
                qp, rp = ZERO, a
                for _ in range(12):
                    for m, c in sorted(rp.terms, key=lambda t: -sum(e for _, e in t[0])):
                        d = dict(m)
                        if all(d.get(x, 0) >= e for x, e in bm):
                            for x, e in bm:
                                d[x] -= e
                                if d[x] == 0:
                                    del d[x]
                            f = _from_dict({tuple(sorted(d.items(), key=lambda t: t[0].uid)): c / bc})
                            qp, rp = qp + f, rp - f * b
                            break
                    else:
                        break
                if qp is ZERO:
                    continue
                for k in (0, -1, 1):
                    r2 = rp - P(k) * b
                    lo = lower(r2)
                    up = lower(b - ONE - r2)
                    if lo is not None and lo >= 0 and up is not None and up >= 0:
                        return qp + P(k)
        return P(_mk('fdiv', (a, b), 'i', a.fv | b.fv, max(a.height, b.height)))
    return floor(a * inv(b))


def mod(a, b):
    a, b = P(a), P(b)
    return a - b * fdiv(a, b)


def floor(p):
    p = P(p)
    if p.sort == 'i':
        return p
    c = p.const()
    if c is not None:
        return P(math.floor(c))
    # split integer part
    ip, rp = {}, {}
    for m, c in p.terms:
        if c.denominator == 1 and all(a.sort == 'i' and e > 0 for a, e in m):
            ip[m] = c
        else:
            rp[m] = c
    q = _from_dict(rp)
    return _from_dict(ip) + P(_mk('floor', (q,), 'i', q.fv, q.height))


def trunc(p):
    """C/Python int(): toward zero"""
    p = P(p)
    if p.sort == 'i':
        return p
    if nonneg(p):
        return floor(p)
    return ite(ge0(p), floor(p), -floor(-p))


# -------------------------------------------------- sums

def tsum(vars, dims, body):
    """sum of body over index Var atoms `vars` with range dims"""
    vars = list(vars)
    dims = [P(d) for d in dims]
    body = P(body)
    res = body
    for v, d in zip(reversed(vars), reversed(dims)):
        res = sum1(v, d, res)
    return res


_summemo = {}


def sum1(v, d, body):
    """sum over one variable"""
    name = v.args[0]
    if name not in body.fv:
        return d * body
    c = d.const()
    if c is not None:
        if c <= 0:
            return ZERO
        if c <= 12:
            return add_many([subst(body, {name: P(k)}) for k in range(int(c))])
    else:
        # split off constant positive offset
        c0 = dict(d.terms).get((), F0)
        if c0 > 0 and c0.denominator == 1 and c0 <= 6:
            d0 = d - P(c0)
            lo = lower(d0)
            if lo is not None and lo >= 0:
                v2 = fresh_index(d0)
                r = sum1(v2, d0, subst(body, {name: P(v2)}))
                for k in range(int(c0)):
                    r = r + subst(body, {name: d0 + P(k)})
                return r
        # product dims with fdiv by a factor
        sp = _find_split(name, d, body)
        if sp is not None:
            # a term that fixes v needs no splitting
            fixed = [(m, c) for m, c in body.terms if _fixes(v, m)]
            if fixed:
                done = add_many([mul(P(c), _summono(v, d, m)) for m, c in fixed])
                rest = body - add_many([mul(P(c), mono_poly(m)) for m, c in fixed])
                return done + sum1(v, d, rest)
            minor, major = sp
            i, j = fresh_index(major), fresh_index(minor)
            b2 = subst(body, {name: P(i) * minor + P(j)})
            return sum1(i, major, sum1(j, minor, b2))
    out = []
    for m, c in body.terms:
        out.append(mul(P(c), _summono(v, d, m)))
    return add_many(out)


def _fixes(v, m):
    return any(a.head == 'ind' and a.args[0] == 'eq' and v.args[0] in a.fv and solve_lin(a.args[1], v) is not None for a, _ in m)


def _find_split(name, d, body):
    if len(d.terms) != 1:
        return None
    deg, cf = sum(e for _, e in d.terms[0][0]), d.terms[0][1]
    if deg < 2 and not (deg == 1 and cf >= 2 and cf.denominator == 1):
        return None
    cands = []

    def walk(x):
        if isinstance(x, Poly):
            if name not in x.fv:
                return
            for m, _ in x.terms:
                for a, _e in m:
                    walk(a)
        elif isinstance(x, Lam):
            if name in x.fv:
                walk(x.body)
        elif isinstance(x, Atom):
            if name not in x.fv:
                return
            if x.head == 'fdiv' and x.args[0] is P(_varreg[name]):
                cands.append(x.args[1])
            for y in x.args:
                if not isinstance(y, str):
                    if isinstance(y, tuple):
                        for z in y:
                            walk(z)
                    else:
                        walk(y)
    walk(body)
    for b in cands:
        if len(b.terms) == 1 and b.terms[0][1] == 1:
            bm = dict(b.terms[0][0])
            dm = dict(d.terms[0][0])
            if all(dm.get(a, 0) >= e for a, e in bm.items()):
                rest = {a: e - bm.get(a, 0) for a, e in dm.items() if e - bm.get(a, 0)}
                major = mono_poly(tuple(sorted(rest.items(), key=lambda t: t[0].uid)), d.terms[0][1])
                return b, major
    return None


def _expand_inds(m, name):
    """yield for Kronecker elimination"""
    return None


NZ = []          # filled with a True once a mask has been used as an index


def nz_reindex(v, d, body):
    """when v in [0, number of True of mask l) occurs in body only as
    nzpos(l, v): -> (j, dim, mask(j), body over j), else None"""
    name = v.args[0]
    found = []
    seen = set()

    def walk(x):
        if isinstance(x, Poly):
            if name not in x.fv or x in seen:
                return
            seen.add(x)
            for m, _ in x.terms:
                for a, _e in m:
                    walk(a)
        elif isinstance(x, Lam):
            if name in x.fv:
                walk(x.body)
                for y in x.dims:
                    walk(y)
        elif isinstance(x, Atom):
            if name not in x.fv or x in seen:
                return
            seen.add(x)
            if x.head == 'app' and x.args[0] == 'nzpos' and x.args[2] is P(v) and name not in x.args[1].fv:
                found.append(x)
            for y in x.args:
                if isinstance(y, tuple):
                    for z in y:
                        walk(z)
                elif not isinstance(y, str):
                    walk(y)
    walk(body)
    for a in found:
        l = a.args[1]
        vs, b = open_lam(l)
        if len(vs) != 1 or tsum(vs, l.dims, b) is not d:
            continue
        from . import prove as PR
        j = fresh_index(l.dims[0])
        nb = PR.replace_atoms(body, {a: P(j)})
        if name in nb.fv:
            continue
        return j, l.dims[0], open_lam(l, [P(j)]), nb
    return None


PERM = []        # filled with a True once a permutation has been used
PERMS = {'rng_perm': 'rng_perminv', 'rng_perminv': 'rng_perm'}
# A permutation p of 0..n-1 and its inverse, both extended by the identity to
# all other integers (values outside 0..n-1 are never observable).


def _perm_rw(args, sort, head):
    a = args[-1].single_atom() if isinstance(args[-1], Poly) else None
    if a is not None and a.head == 'app' and a.args[0] == PERMS[head] and a.args[1:-1] == tuple(args[:-1]):
        return a.args[-1]
    PERM[:] = [True]
    return None


def perm_reindex(v, d, body):
    """when v in [0, n) occurs in body only as p(v) for a permutation p of
    0..n-1: body over p(v)"""
    name = v.args[0]
    for a in _apps_of(body, name, PERMS):
        if a.args[-1] is P(v) and a.args[-2] is d and not any(name in x.fv for x in a.args[1:-1]):
            from . import prove as PR
            v2 = fresh_index(d)
            nb = PR.replace_atoms(body, {a: P(v2)})
            if name not in nb.fv:
                return v2, nb
    return None


def _apps_of(body, name, heads):
    found, seen = [], set()

    def walk(x):
        if isinstance(x, Poly):
            if name not in x.fv or x in seen:
                return
            seen.add(x)
            for m, _ in x.terms:
                for a, _e in m:
                    walk(a)
        elif isinstance(x, Lam):
            if name in x.fv:
                walk(x.body)
                for y in x.dims:
                    walk(y)
        elif isinstance(x, Atom):
            if name not in x.fv or x in seen:
                return
            seen.add(x)
            if x.head == 'app' and x.args[0] in heads:
                found.append(x)
            for y in x.args:
                if isinstance(y, tuple):
                    for z in y:
                        walk(z)
                elif not isinstance(y, str):
                    walk(y)
    walk(body)
    return found


def solve_perm(p, v):
    """p = ±perm(v) + rest (rest free of v): (root, range condition on the root)"""
    t = [(m[0][0], c) for m, c in p.terms if len(m) == 1 and m[0][1] == 1 and m[0][0].head == 'app' and m[0][0].args[0] in PERMS
         and m[0][0].args[-1] is P(v) and abs(c) == 1]
    n = v.args[0]
    if len(t) != 1:
        return None
    a, c = t[0]
    rest = p - P(c) * P(a)
    if n in rest.fv or any(n in x.fv for x in a.args[1:-1]):
        return None
    x = -rest if c == 1 else rest
    return rebuild_app(PERMS[a.args[0]], tuple(a.args[1:-1]) + (x,), 'i')


def _exclusive(m):
    """[a = 0][b = 0] where a - b or a + b cannot vanish"""
    eqs = [a.args[1] for a, e in m if a.head == 'ind' and a.args[0] == 'eq']
    for i in range(len(eqs)):
        for j in range(i):
            for s in (eqs[i] - eqs[j], eqs[i] + eqs[j]):
                if len(s.terms) > 3:
                    continue
                for q in (s, -s):
                    lo = lower(q)
                    if lo is not None and lo > 0:
                        return True
    return False


def _summono(v, d, m):
    """sum over v in [0,d) of monomial m"""
    name = v.args[0]
    if NZ:
        r = nz_reindex(v, d, mono_poly(m))
        if r is not None:
            j, dj, mask, nb = r
            return sum1(j, dj, mask * nb)
    if PERM:
        r = perm_reindex(v, d, mono_poly(m))
        if r is not None:
            return sum1(r[0], d, r[1])
    # Kronecker: indicator eq linear in v with unit coefficient
    for a, e in m:
        if a.head == 'ind' and a.args[0] == 'eq' and name in a.fv:
            p = a.args[1]
            sol = solve_lin(p, v)
            if sol is None and PERM:
                sol = solve_perm(p, v)
            if sol is not None:
                rest = tuple(x for x in m if x[0] is not a)
                val = subst(mono_poly(rest), {name: sol})
                rng = ge0(sol) * ge0(d - ONE - sol)
                return rng * val
    if _exclusive(m):
        return ZERO
    free = []
    bound = []
    for a, e in m:
        if name in a.fv:
            bound.append((a, e))
        else:
            free.append((a, e))
    freep = mono_poly(tuple(free))
    if not bound:
        return freep * d
    if len(bound) == 1 and bound[0][0].head == 'ind' and bound[0][0].args[0] == 'ge':
        # number of v in [0, d) above or below a threshold
        p = bound[0][0].args[1]
        sol = solve_lin(p, v)
        if sol is not None and sol.sort == 'i':
            up = dict(p.terms).get(((v, 1),)) == 1
            x = sol if up else sol + ONE
            fits = ge0(d - x)
            c = ge0(x) * (x * fits + d * (ONE - fits))
            return freep * (d - c if up else c)
    # flatten nested sums with positive powers
    binders = [(v, d)]
    factors = []          # list of (atom, e)
    opened = False
    for a, e in bound:
        if a.head == 'sum' and 1 <= e <= 3 and not any(name in dd.fv for dd in a.args[0]):
            for _ in range(e):
                vs, b = open_sum(a)
                binders.extend(zip(vs, a.args[0]))
                factors.append(b)
                opened = True
        else:
            factors.append(mono_poly(((a, e),)))
    if opened:
        prod = ONE
        for f in factors:
            prod = prod * f
        # product of monomials may normalise into several terms
        if len(prod.terms) == 1 and prod.terms[0][1] == 1:
            return freep * _mksum(binders, prod.terms[0][0])
        out = []
        for mm, c in prod.terms:
            out.append(P(c) * _mksum(binders, mm))
        return freep * add_many(out)
    return freep * _mksum(binders, tuple(bound))


def _mksum(binders, m):
    """binders: list of (var, dim); m monomial.  Connected components, canonical"""
    if NZ:
        for k, (v, d) in enumerate(binders):
            r = nz_reindex(v, d, mono_poly(m))
            if r is not None:
                j, dj, mask, nb = r
                res = sum1(j, dj, mask * nb)
                for v2, d2 in reversed([b for i, b in enumerate(binders) if i != k]):
                    res = sum1(v2, d2, res)
                return res
    if PERM:
        for k, (v, d) in enumerate(binders):
            r = perm_reindex(v, d, mono_poly(m))
            if r is not None:
                res = sum1(r[0], d, r[1])
                for v2, d2 in reversed([b for i, b in enumerate(binders) if i != k]):
                    res = sum1(v2, d2, res)
                return res
    # kronecker elimination for any binder
    for k, (v, d) in enumerate(binders):
        for a, e in m:
            if a.head == 'ind' and a.args[0] == 'eq' and v.args[0] in a.fv:
                sol = solve_lin(a.args[1], v)
                if sol is None and PERM:
                    sol = solve_perm(a.args[1], v)
                if sol is not None:
                    rest = tuple(x for x in m if x[0] is not a)
                    val = subst(mono_poly(rest), {v.args[0]: sol})
                    val = ge0(sol) * ge0(d - ONE - sol) * val
                    r = val
                    for v2, d2 in reversed([b for i, b in enumerate(binders) if i != k]):
                        r = sum1(v2, d2, r)
                    return r
    names = {v.args[0]: (v, d) for v, d in binders}
    # components
    groups = []   # [set(names), [factors]]
    free = []
    for a, e in m:
        s = a.fv & names.keys()
        if not s:
            free.append((a, e))
            continue
        g = [set(s), [(a, e)]]
        rest = []
        for h in groups:
            if h[0] & g[0]:
                g[0] |= h[0]
                g[1] += h[1]
            else:
                rest.append(h)
        groups = rest + [g]
    out = mono_poly(tuple(sorted(free, key=lambda t: t[0].uid)))
    used = set()
    for s, fs in groups:
        used |= s
        bs = [names[n] for n in s]
        out = out * _sumatom(bs, tuple(sorted(fs, key=lambda t: t[0].uid)))
    for n, (v, d) in names.items():
        if n not in used:
            out = out * d
    return out


def _sumatom(bs, m):
    body = mono_poly(m)
    # single binder, and nested sums not yet flattened?  (all flattened by caller
    # except those freed by kronecker substitution) -- handle here
    for a, e in m:
        if a.head == 'sum' and 1 <= e <= 3 and not any(
                v.args[0] in dd.fv for v, _ in bs for dd in a.args[0]):
            vs, b = open_sum(a)
            rest = tuple((x, y) for x, y in m if x is not a)
            if e > 1:
                rest = tuple(sorted(rest + ((a, e - 1),), key=lambda t: t[0].uid))
            prod = mono_poly(rest) * b
            nb = list(bs) + list(zip(vs, a.args[0]))
            return add_many([P(c) * _mksum(nb, mm) for mm, c in prod.terms])
    h = max([body.height] + [d.height for _, d in bs]) + 1
    bydim = {}
    for v, d in bs:
        bydim.setdefault(d, []).append(v)
    dims = sorted(bydim, key=lambda d: d.uid)
    groups = [bydim[d] for d in dims]
    if math.prod(math.factorial(len(g)) for g in groups) > 5040:
        raise TermError("too many binders")
    best = None
    dimt = tuple(d for d, g in zip(dims, groups) for _ in g)
    for perms in iproduct(*[permutations(g) for g in groups]):
        order = [v for g in perms for v in g]
        b = subst(body, {v.args[0]: P(_bound(h, j)) for j, v in enumerate(order)},
                  binders=False)
        if best is None or b.uid < best.uid:
            best = b
    fv = best.fv
    for d in dims:
        fv = fv | d.fv
    return P(_mk('sum', (dimt, best, h), 'i' if best.sort == 'i' else 'r', fv, h))


def open_sum(a):
    dims, body, h = a.args
    vs = [fresh_index(d) for d in dims]
    return vs, _open_body(body, h, [P(v) for v in vs])


def solve_lin(p, v):
    """p = ±v + rest (rest free of v), v int with unit coefficient: the root"""
    co = None
    rest = {}
    n = v.args[0]
    for m, c in p.terms:
        if len(m) == 1 and m[0][0] is v and m[0][1] == 1:
            co = c
        elif any(n in a.fv for a, _ in m):
            return None
        else:
            rest[m] = c
    if co is None or abs(co) != 1:
        return None
    r = _from_dict(rest)
    return -r if co == 1 else r


# -------------------------------------------------- substitution

def subst(x, env, binders=True):
    """env: name -> Poly.  Rebuilds (renormalises) what changes.  With
    binders=False bound variables are being substituted *in* (closing): the
    structure is rebuilt without re-normalising."""
    if not env:
        return x
    memo = {}
    keys = frozenset(env)
    return _sub(x, env, keys, memo, not binders)


def _sub(x, env, keys, memo, raw):
    if isinstance(x, Poly):
        if not (x.fv & keys):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        out = []
        for m, c in x.terms:
            t = P(c)
            same = []
            for a, e in m:
                if a.fv & keys:
                    na = _sub(a, env, keys, memo, raw)
                    t = mul(t, power(na, e)) if e > 0 else mul(t, inv(power(na, -e)))
                else:
                    same.append((a, e))
            if same:
                t = mul(t, mono_poly(tuple(same)))
            out.append(t)
        r = add_many(out)
        memo[x] = r
        return r
    if isinstance(x, Lam):
        if not (x.fv & keys):
            return x
        r = memo.get(x)
        if r is None:
            dims = [_sub(d, env, keys, memo, raw) for d in x.dims]
            vs = [fresh_index(d) for d in dims]
            b = _open_body(x.body, x.height, [P(v) for v in vs])
            b = _sub(b, env, keys, memo, raw)
            r = mklam(vs, dims, b)
            memo[x] = r
        return r
    if isinstance(x, Atom):
        if not (x.fv & keys):
            return P(x)
        r = memo.get(x)
        if r is None:
            r = _sub_atom(x, env, keys, memo, raw)
            memo[x] = r
        return r
    raise TermError("subst")


def _sub_atom(a, env, keys, memo, raw):
    h = a.head
    if h == 'var':
        return env.get(a.args[0], None) or P(a)
    if raw:
        # closing: only variable renaming to bound variables; keep structure
        return _rename_atom(a, env, keys, memo)
    if h == 'app':
        args = tuple(x if isinstance(x, str) else _sub(x, env, keys, memo, raw)
                     for x in a.args[1:])
        return rebuild_app(a.args[0], args, a.sort)
    if h == 'ind':
        kind, p = a.args
        if kind == 'any':
            dims = [_sub(d, env, keys, memo, raw) for d in p.dims]
            vs = [fresh_index(d) for d in dims]
            b = _open_body(p.body, p.height, [P(v) for v in vs])
            return tany(vs, dims, _sub(b, env, keys, memo, raw))
        q = _sub(p, env, keys, memo, raw)
        if kind == 'eq':
            return eq0(q)
        if kind == 'ge':
            return ge0(q)
        return ind('b', q) if q.const() is None else (ONE if q.const() else ZERO)
    if h == 'sum':
        dims, body, hh = a.args
        nd = [_sub(d, env, keys, memo, raw) for d in dims]
        vs = [fresh_index(d) for d in nd]
        b = _open_body(body, hh, [P(v) for v in vs])
        return tsum(vs, nd, _sub(b, env, keys, memo, raw))
    args = [_sub(x, env, keys, memo, raw) for x in a.args]
    return rebuild(h, args)


def rebuild(h, args):
    if h == 'exp':
        return exp(args[0])
    if h == 'log':
        return log(args[0])
    if h == 'sqrt':
        return sqrt(args[0])
    if h == 'inv':
        return inv(args[0])
    if h == 'fdiv':
        return fdiv(*args)
    if h == 'floor':
        return floor(args[0])
    raise TermError(h)


REWRITE = {}     # head -> function(args, sort) -> Poly or None


def rebuild_app(head, args, sort):
    f = REWRITE.get(head)
    if f is not None:
        r = f(args, sort)
        if r is not None:
            return r
    return App(head, args, sort)


def _rename_atom(a, env, keys, memo):
    """structure-preserving renaming of free variables to bound variables"""
    h = a.head
    if h == 'app':
        return App(a.args[0], tuple(x if isinstance(x, str) else _rn(x, env, keys, memo)
                                    for x in a.args[1:]), a.sort)
    if h == 'ind':
        kind, p = a.args
        q = _rn(p, env, keys, memo)
        return P(_mk('ind', (kind, q), 'i', q.fv, q.height))
    if h == 'sum':
        dims, body, hh = a.args
        nd = tuple(_rn(d, env, keys, memo) for d in dims)
        nb = _rn(body, env, keys, memo)
        fv = nb.fv
        for d in nd:
            fv = fv | d.fv
        # a bound variable of larger height occurs inside: height is that of
        # the binder structure itself, hence unchanged
        return P(_mk('sum', (nd, nb, hh), a.sort, fv, hh))
    args = tuple(_rn(x, env, keys, memo) for x in a.args)
    fv = frozenset()
    hh = 0
    for x in args:
        fv = fv | x.fv
        hh = max(hh, x.height)
    return P(_mk(h, args, a.sort, fv, hh))


def _rn(x, env, keys, memo):
    if isinstance(x, Lam):
        if not (x.fv & keys):
            return x
        dims = tuple(_rn(d, env, keys, memo) for d in x.dims)
        b = _rn(x.body, env, keys, memo)
        k = (dims, b, x.height)
        l = _lintern.get(k)
        if l is None:
            l = Lam()
            l.dims, l.body, l.uid = dims, b, next(_luid)
            fv = b.fv
            for d in dims:
                fv = fv | d.fv
            l.fv, l.height, l.sort = fv, x.height, b.sort
            _lintern[k] = l
        return l
    if not (x.fv & keys):
        return x
    r = memo.get(x)
    if r is not None:
        return r
    d = {}
    for m, c in x.terms:
        mm = {}
        for a, e in m:
            if a.fv & keys:
                na = _sub(a, env, keys, memo, True).single_atom()
                if na is None:
                    raise TermError("rename")
            else:
                na = a
            mm[na] = mm.get(na, 0) + e
        t = tuple(sorted(mm.items(), key=lambda t: t[0].uid))
        d[t] = d.get(t, F0) + c
    r = _from_dict(d)
    memo[x] = r
    return r


def _subst_bound(x, env, memo=None):
    """replace bound-variable atoms by polys (opening a binder)"""
    if memo is None:
        memo = {}
    if isinstance(x, Poly):
        r = memo.get(x)
        if r is not None:
            return r
        out = []
        for m, c in x.terms:
            t = P(c)
            for a, e in m:
                na = _subst_bound(a, env, memo)
                t = mul(t, power(na, e)) if e > 0 else mul(t, inv(power(na, -e)))
            out.append(t)
        r = add_many(out)
        memo[x] = r
        return r
    if isinstance(x, Atom):
        r = memo.get(x)
        if r is not None:
            return r
        r = _open_atom(x, env, memo)
        memo[x] = r
        return r
    raise TermError("open")


def _mentions(x, env):
    """does x mention one of the bound atoms in env?"""
    for b in env:
        if _has_bound(x, b):
            return True
    return False


_hb = {}


def _has_bound(x, b):
    k = (x, b)
    r = _hb.get(k)
    if r is None:
        if isinstance(x, Poly):
            r = any(_has_bound(a, b) for m, _ in x.terms for a, _e in m)
        elif isinstance(x, Lam):
            r = any(_has_bound(d, b) for d in x.dims) or _has_bound(x.body, b)
        elif isinstance(x, tuple):
            r = any(_has_bound(d, b) for d in x)
        elif isinstance(x, Atom):
            if x is b:
                r = True
            elif x.head == 'var':
                r = False
            else:
                r = any(_has_bound(y, b) for y in x.args if not isinstance(y, (str, int)))
        else:
            r = False
        _hb[k] = r
    return r


def _open_atom(a, env, memo):
    if a in env:
        return env[a]
    if a.head == 'var' or not _mentions(a, env):
        return P(a)
    h = a.head
    if h == 'app':
        args = tuple(x if isinstance(x, str) else
                     (_open_lam_in(x, env, memo) if isinstance(x, Lam)
                      else _subst_bound(x, env, memo))
                     for x in a.args[1:])
        return rebuild_app(a.args[0], args, a.sort)
    if h == 'ind':
        kind, p = a.args
        if kind == 'any':
            dims = [_subst_bound(d, env, memo) for d in p.dims]
            vs = [fresh_index(d) for d in dims]
            e2 = dict(env)
            e2.update({_bound(p.height, j): P(v) for j, v in enumerate(vs)})
            return tany(vs, dims, _subst_bound(p.body, e2, {}))
        q = _subst_bound(p, env, memo)
        if kind == 'eq':
            return eq0(q)
        if kind == 'ge':
            return ge0(q)
        return ind('b', q)
    if h == 'sum':
        dims, body, hh = a.args
        nd = [_subst_bound(d, env, memo) for d in dims]
        vs = [fresh_index(d) for d in nd]
        e2 = dict(env)
        e2.update({_bound(hh, j): P(v) for j, v in enumerate(vs)})
        return tsum(vs, nd, _subst_bound(body, e2, {}))
    return rebuild(h, [_subst_bound(x, env, memo) for x in a.args])


def _open_lam_in(l, env, memo):
    if not _mentions(l, env):
        return l
    dims = [_subst_bound(d, env, memo) for d in l.dims]
    vs = [fresh_index(d) for d in dims]
    e2 = dict(env)
    e2.update({_bound(l.height, j): P(v) for j, v in enumerate(vs)})
    return mklam(vs, dims, _subst_bound(l.body, e2, {}))


# -------------------------------------------------- differentiation

def diff(p, head, idx):
    """derivative with respect to App(head, idx) (idx: tuple of Polys), or to
    the Var named `head` when idx is None"""
    out = []
    for m, c in p.terms:
        for k, (a, e) in enumerate(m):
            da = _diff_atom(a, head, idx)
            if da is ZERO:
                continue
            rest = list(m)
            if e == 1:
                rest.pop(k)
            else:
                rest[k] = (a, e - 1)
            out.append(P(c * e) * mono_poly(tuple(rest)) * da)
    return add_many(out)


def _occurs(x, head):
    if isinstance(x, Poly):
        return any(_occurs(a, head) for m, _ in x.terms for a, _e in m)
    if isinstance(x, Lam):
        return _occurs(x.body, head)
    if isinstance(x, tuple):
        return any(_occurs(y, head) for y in x)
    if isinstance(x, Atom):
        if x.head == 'var':
            return x.args[0] == head
        if x.head == 'app' and x.args[0] == head:
            return True
        return any(_occurs(y, head) for y in x.args if not isinstance(y, (str, int)))
    return False


def _diff_atom(a, head, idx):
    if not _occurs(a, head):
        return ZERO
    h = a.head
    if h == 'var':
        return ONE
    if h == 'app':
        if a.args[0] == head:
            r = ONE
            for x, y in zip(a.args[1:], idx):
                r = r * eq(x, y)
            return r
        raise TermError("derivative of opaque %s" % a.args[0])
    if h == 'exp':
        return P(a) * diff(a.args[0], head, idx)
    if h == 'log':
        return diff(a.args[0], head, idx) * inv(a.args[0])
    if h == 'sqrt':
        return diff(a.args[0], head, idx) * inv(P(2) * P(a))
    if h == 'inv':
        return -P(a) * P(a) * diff(a.args[0], head, idx)
    if h == 'sum':
        vs, b = open_sum(a)
        return tsum(vs, a.args[0], diff(b, head, idx))
    raise TermError("derivative of %s" % h)


# -------------------------------------------------- printing

def show(p):
    if isinstance(p, Lam):
        return repr(p)
    if not isinstance(p, Poly):
        return str(p)
    if not p.terms:
        return "0"
    out = []
    for m, c in p.terms:
        s = "*".join([show_atom(a) + ("^%d" % e if e != 1 else "") for a, e in m])
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s*%s" % (c, s)
        out.append(s)
    return " + ".join(out)


def show_atom(a):
    h = a.head
    if h == 'var':
        return a.args[0]
    if h == 'app':
        return "%s(%s)" % (a.args[0], ", ".join(show(x) for x in a.args[1:]))
    if h == 'ind':
        k, p = a.args
        if k == 'eq':
            return "[%s = 0]" % show(p)
        if k == 'ge':
            return "[%s >= 0]" % show(p)
        if k == 'any':
            return "[exists %s]" % show(p)
        return "[%s]" % show(p)
    if h == 'sum':
        dims, b, hh = a.args
        return "SUM{%s}(%s)" % (",".join("#%d.%d<%s" % (hh, j, show(d)) for j, d in enumerate(dims)), show(b))
    return "%s(%s)" % (h, ", ".join(show(x) for x in a.args))
