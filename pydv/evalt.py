"""Numeric evaluation of terms under a concrete interpretation (refutation of
unprovable obligations, and checks of the engine itself)."""
import math
import itertools
from . import terms as T


RANGES = {}      # array input -> (lo poly or None, hi poly or None)
VRANGES = {}     # real input -> hi poly


class EvalError(Exception):
    pass


class Env:
    def __init__(self, rng, vars=None, funcs=None, pool=()):
        self.rng = rng
        self.vars = dict(vars or {})
        self.funcs = dict(funcs or {})    # head -> callable(*args)
        self.table = {}
        self.pool = pool
        self.eps = min([1e-11] + [abs(x) * 1e-2 for x in pool if x])

    def var(self, a):
        n = a.args[0]
        if n not in self.vars:
            lo = ev(a.lo, self) if a.lo is not None else None
            hi = ev(a.hi, self) if a.hi is not None else None
            if a.sort == 'i':
                l = -3 if lo is None else int(lo)
                h = (l + 5) if hi is None else int(hi)
                if h <= l:
                    raise EvalError("empty range %s" % n)
                self.vars[n] = self.rng.randrange(l, h)
            else:
                l = -2.0 if lo is None else lo
                u = l + 4
                if n in VRANGES:
                    u = ev(VRANGES[n], self)
                    if lo is None:
                        l = u - 4
                x = self.rng.choice([self.rng.uniform(l, u), self.rng.uniform(l, u), min(max(float(round(self.rng.uniform(l, u))), l), u)])
                if self.pool and self.rng.random() < 0.3:
                    y = self.rng.choice(self.pool)
                    if (lo is None or y >= lo) and (n not in VRANGES or y <= u):
                        x = y
                if n in T.POSVARS:
                    x = abs(x) + (0.1 if x == 0 or not self.pool else 0.)
                self.vars[n] = x
        return self.vars[n]

    def app(self, head, args, sort):
        f = self.funcs.get(head)
        if f is not None:
            return f(*args)
        key = (head,) + tuple(_freeze(a) for a in args)
        if key not in self.table:
            if head in RANGES:
                lo, hi = RANGES[head]
                lo = ev(lo, self) if lo is not None else None
                hi = ev(hi, self) if hi is not None else None
                if lo is None:
                    lo = hi - 4
                if hi is None:
                    hi = lo + 4
                if hi < lo:
                    raise EvalError("empty range")
                v = self.rng.randint(int(lo), int(hi)) if sort == 'i' else self.rng.choice(
                    [self.rng.uniform(lo, hi), self.rng.uniform(lo, hi), lo, hi])
            elif sort == 'i':
                v = self.rng.choice([0, 1, 2, 3, 0, 1])
            else:
                v = self.rng.choice([0.0, self.rng.uniform(-2, 2), self.rng.uniform(-2, 2), self.rng.uniform(-2, 2)])
                if self.pool and self.rng.random() < 0.3:
                    v = self.rng.choice(self.pool)
                if head in T.POSVARS:
                    v = abs(v) + (0.1 if v == 0 or not self.pool else 0.)
            self.table[key] = v
        return self.table[key]


def constants(ps, limit=20):
    """non-trivial numeric constants occurring in the terms"""
    out, seen, todo = set(), set(), list(ps)
    while todo and len(seen) < 20000:
        p = todo.pop()
        if id(p) in seen or isinstance(p, (str, int, float, bool)) or p is None:
            continue
        seen.add(id(p))
        if isinstance(p, T.Poly):
            for m, c in p.terms:
                if c.denominator != 1 or abs(c) > 2:
                    out.add(abs(float(c)))
                for a, e in m:
                    todo += list(a.args)
        elif isinstance(p, T.Lam):
            todo += list(p.dims) + [p.body]
        elif isinstance(p, tuple):
            todo += list(p)
    return sorted(out)[:limit]


def _freeze(a):
    if isinstance(a, dict):
        return tuple(sorted(((k, round(v, 7) if isinstance(v, float) else v) for k, v in a.items()), key=repr))
    if isinstance(a, float):
        return round(a, 7)
    return a


def ev(p, env, b=None):
    b = b or {}
    if isinstance(p, T.Poly):
        t = 0
        for m, c in p.terms:
            x = c if c.denominator != 1 else int(c)
            if isinstance(x, T.Fraction):
                x = float(x)
            # indicators first: short-circuit
            zero = False
            for a, e in m:
                if a.head == 'ind':
                    if not ev_atom(a, env, b):
                        zero = True
                        break
            if zero:
                continue
            for a, e in m:
                if a.head == 'ind':
                    continue
                v = ev_atom(a, env, b)
                if e < 0:
                    if v == 0:
                        raise EvalError("division by zero")
                    x = x / (v ** -e)
                else:
                    x = x * v ** e
            t += x
        return t
    if isinstance(p, T.Lam):
        dims = [int(round(ev(d, env, b))) for d in p.dims]
        out = {}
        for idx in itertools.product(*[range(d) for d in dims]):
            b2 = dict(b)
            for j, i in enumerate(idx):
                b2["#%d.%d" % (p.height, j)] = i
            out[idx] = ev(p.body, env, b2)
        out["dims"] = tuple(dims)
        return out
    raise EvalError("ev")


def ev_atom(a, env, b):
    h = a.head
    if h == 'var':
        if a.args[0] in b:
            return b[a.args[0]]
        if a.args[0].startswith('#'):
            raise EvalError("loose bound")
        return env.var(a)
    if h == 'app':
        args = [x if isinstance(x, str) else ev(x, env, b) for x in a.args[1:]]
        return env.app(a.args[0], args, a.sort)
    if h == 'ind':
        k, p = a.args
        if k == 'any':
            dims = [int(round(ev(d, env, b))) for d in p.dims]
            for idx in itertools.product(*[range(d) for d in dims]):
                b2 = dict(b)
                for j, i in enumerate(idx):
                    b2["#%d.%d" % (p.height, j)] = i
                if ev(p.body, env, b2):
                    return 1
            return 0
        v = ev(p, env, b)
        if isinstance(v, float) and abs(v) < env.eps:
            v = 0
        if k == 'eq':
            return 1 if v == 0 else 0
        if k == 'ge':
            return 1 if v >= 0 else 0
        return 1 if v else 0
    if h == 'sum':
        dims, body, hh = a.args
        ds = [int(round(ev(d, env, b))) for d in dims]
        t = 0
        n = 1
        for d in ds:
            n *= max(d, 0)
        if n > 20000:
            raise EvalError("sum too large")
        for idx in itertools.product(*[range(d) for d in ds]):
            b2 = dict(b)
            for j, i in enumerate(idx):
                b2["#%d.%d" % (hh, j)] = i
            t += ev(body, env, b2)
        return t
    args = [ev(x, env, b) for x in a.args]
    try:
        if h == 'exp':
            return math.exp(args[0])
        if h == 'log':
            if args[0] <= 0:
                raise EvalError("log")
            return math.log(args[0])
        if h == 'sqrt':
            if args[0] < 0:
                if args[0] > -1e-9:
                    return 0.0
                raise EvalError("sqrt")
            return math.sqrt(args[0])
        if h == 'inv':
            if args[0] == 0:
                raise EvalError("division by zero")
            return 1.0 / args[0]
        if h == 'fdiv':
            if args[1] == 0:
                raise EvalError("division by zero")
            return args[0] // args[1]
        if h == 'floor':
            return math.floor(args[0])
    except OverflowError:
        raise EvalError("overflow")
    raise EvalError(h)
