"""Concrete evaluation of contracts on the real code (imported from a freshly
built scratch copy)."""
import math
import random
import itertools
import numpy as np
from .api import Reject


class Violation(Exception):
    def __init__(self, label, detail):
        Exception.__init__(self, label)
        self.label, self.detail = label, detail


def tolist(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    return x


class Opaque(object):
    """an argument of which only the identity matters"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


MODS = {}


def translated(name):
    """the translation of the C or Cython source, executed as it is"""
    if name not in MODS:
        import os
        import subprocess
        import types
        import pyuoi
        repo = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(pyuoi.__file__))))
        p = subprocess.run(['python3-vt', '-m', 'pydv.cfront', name, repo], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise RuntimeError('translation refused: ' + p.stderr.decode()[-300:])
        m = types.ModuleType(name)
        m.__package__ = 'pyuoi.lbfgs'
        if name != 'pyuoi.lbfgs._liblbfgs':
            translated('pyuoi.lbfgs._liblbfgs')
        import sys
        sys.modules[name] = m
        exec(compile(p.stdout.decode(), name, 'exec'), m.__dict__)
        MODS[name] = m
    return MODS[name]


class ConT:
    symbolic = False

    def __init__(self, rng, nprng, presets=None, modloader=None):
        self.rng = rng
        self.nprng = nprng
        self.np = np
        self.inputs = {}
        self.presets = presets or {}
        self.checks = 0
        self.modloader = modloader
        self.undo = []

    lits = ()

    def _lit(self, lo=None, hi=None):
        """a number next to one that the code under test has newly come to mention, or None"""
        if not self.lits or self.rng.random() < 0.6:
            return None
        c = self.rng.choice(self.lits)
        v = self.rng.choice([c, c / 2, 2 * c, -c, -c / 2, c + 1, c - 1])
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            return None
        return v

    def _pre(self, name):
        v = self.presets.get('vars', {}).get(name)
        return v

    # -- inputs
    def dim(self, name, lo=1, hi=5):
        if hi is None:
            hi = max(lo + 4, 5)
        v = self._pre(name)
        if v is None:
            v = self._lit(lo, max(hi, 24))
        if v is None:
            v = lo if self.rng.random() < 0.25 else self.rng.randint(lo, hi)
        v = int(v)
        if not 0 <= v <= 60:
            raise Reject()
        self.inputs[name] = v
        return v

    def integer(self, name, lo=None, hi=None, py=True):
        v = self._pre(name)
        if v is None:
            l = -3 if lo is None else int(lo)
            h = l + 6 if hi is None else int(hi)
            v = self._lit(lo, hi)
            if v is None:
                v = self.rng.randint(l, h)
        self.inputs[name] = int(v)
        return int(v) if py else np.int64(v)

    def real(self, name, lo=None, hi=None, gen=None):
        v = self._pre(name)
        if v is None:
            if gen is not None:
                v = gen(self.rng)
            else:
                l = -3. if lo is None else float(lo)
                h = l + 6. if hi is None else float(hi)
                v = self.rng.choice([self.rng.uniform(l, h), self.rng.uniform(l, h), l if lo is not None else 0.,
                                     float(round(self.rng.uniform(l, h)))])
                v = min(max(v, l), h)
                x = self._lit(lo, hi)
                v = v if x is None else x
        self.inputs[name] = float(v)
        return float(v)

    def generalise(self, name, value):
        return value

    def positive(self, name, gen=None):
        v = self._pre(name)
        if v is None:
            v = gen(self.rng) if gen else self.rng.choice([self.rng.uniform(0.05, 3), 1.0, self.rng.uniform(0.001, 0.1)])
        self.inputs[name] = float(v)
        return float(v)

    def boolean(self, name):
        return self.choice(name, [False, True])

    def narrow(self, kind):
        """a narrower dtype of the kind, or None (the proof has one width per kind)"""
        return self.choice('narrow', [None, np.float32 if kind == 'f' else np.intc])

    def is_integer(self, x):
        return isinstance(x, (int, np.integer)) and not isinstance(x, bool)

    def choice(self, name, options):
        options = list(options)
        v = self._pre('choice:' + name)
        if v is None:
            v = self.rng.randrange(len(options))
        v = int(v)
        self.inputs[name] = repr(options[v])[:60]
        return options[v]

    def permutation(self, name, n):
        p = self.nprng.permutation(int(n))
        self.inputs[name] = p.tolist()
        return p

    def array(self, name, shape, kind='f', lo=None, hi=None, gen=None, positive=False):
        shape = tuple(int(s) for s in shape)
        tab = self.presets.get('funcs', {}).get(name)
        if gen is not None and tab is None:
            a = gen(self.nprng, shape)
        elif kind == 'b':
            a = self.nprng.rand(*shape) < self.rng.choice([0.2, 0.5, 0.8])
        elif kind == 'i':
            l = -2 if lo is None else int(lo)
            h = l + 4 if hi is None else int(hi)
            a = self.nprng.randint(l, h + 1, size=shape)
        else:
            if lo is not None or hi is not None or positive:
                l = 0.05 if positive else (lo if lo is not None else hi - 3)
                h = hi if hi is not None else l + 3
                a = self.nprng.uniform(l, h, size=shape)
                if lo is not None and not positive and self.rng.random() < 0.3:
                    a = np.where(self.nprng.rand(*shape) < 0.3, float(lo), a)
            else:
                a = self.nprng.normal(size=shape) * self.rng.choice([1., 1., 3.])
                m = self.rng.random()
                if m < 0.25:
                    a = a * (self.nprng.rand(*shape) < 0.6)
                elif m < 0.35:
                    a = np.round(a)
        a = np.asarray(a)
        if kind == 'f':
            a = a.astype(float)
            if self.lits and gen is None and a.size:
                flat = a.ravel()
                for j in self.nprng.permutation(a.size)[:1 + a.size // 3]:
                    v = self._lit(0.0 if positive else lo, hi)
                    if v is not None and not (positive and v <= 0):
                        flat[j] = v
                a = flat.reshape(a.shape)
        if tab:
            for idx, v in tab:
                idx = tuple(int(i) for i in idx)
                if len(idx) == a.ndim and all(0 <= i < s for i, s in zip(idx, a.shape)):
                    a[idx] = v
        self.inputs[name] = a.copy()
        return a

    def labels(self, name, n, k, user=False):
        if n < k:
            raise Reject()
        y = self.nprng.randint(0, k, size=n)
        y[self.nprng.permutation(n)[:k]] = np.arange(k)
        self.inputs[name] = y.tolist()
        if not user:
            return y
        m = self.rng.randrange(4)
        if m == 0:
            L = np.sort(self.nprng.choice(np.arange(-9, 30), k, replace=False))
        elif m == 1:
            L = np.sort(self.nprng.choice(np.arange(-9, 30), k, replace=False)).astype(float) / 2
        elif m == 2:
            L = np.array(sorted(self.rng.sample(['a', 'ab', 'b', 'class 1', 'no', 'yes', 'zz'], k)))
        else:
            L = np.arange(1, k + 1)
        self.inputs[name + '$classes'] = L.tolist()
        return L[y], y.copy(), L

    def seq(self, name, n, kind='f', lo=None, hi=None, gen=None):
        a = self.array(name, (n,), kind, lo, hi, gen).tolist()
        return a

    def opaque(self, name):
        return Opaque(name)

    def select(self, items, i):
        return items[int(i)]

    def seqof(self, n, f):
        return [f(k) for k in range(n)]

    def mod(self, name):
        import importlib
        if name in ('pyuoi.lbfgs._liblbfgs', 'pyuoi.lbfgs._lowlevel_text'):
            return translated(name)
        return importlib.import_module(name)

    def stub(self, lib, attr, fn, users=()):
        import importlib
        o = self.mod(lib)
        orig = getattr(o, attr)
        self.undo.append((o, attr, orig))
        setattr(o, attr, fn)
        for u in users:
            m = importlib.import_module(u)
            for k, v in list(vars(m).items()):
                if v is orig or k == attr:
                    self.undo.append((m, k, v))
                    setattr(m, k, fn)

    def keep_stub(self, *a, **k):
        """a stand-in that stays until the end of the contract"""
        before, self.undo = self.undo, []
        self.stub(*a, **k)
        self.kept = self.undo + getattr(self, 'kept', [])
        self.undo = before

    def cleanup(self):
        self.unstub()
        self.undo, self.kept = getattr(self, 'kept', []), []
        self.unstub()

    def unstub(self):
        for o, k, v in reversed(self.undo):
            setattr(o, k, v)
        self.undo = []

    # -- logic
    def at(self, a, *idx):
        if isinstance(a, np.ndarray):
            return a[idx]
        r = a
        for i in idx:
            r = r[i]
        return r

    def len(self, a):
        return len(a)

    def shape(self, a):
        return np.shape(a)

    def ndim(self, a):
        return np.ndim(a)

    def _idx(self, n):
        ns = n if isinstance(n, tuple) else (n,)
        return itertools.product(*[range(int(d)) for d in ns])

    def sum(self, n, f):
        r = 0
        for i in self._idx(n):
            r = r + f(*i)
        return r

    def any(self, n, f):
        return any(bool(f(*i)) for i in self._idx(n))

    def all(self, n, f):
        return all(bool(f(*i)) for i in self._idx(n))

    def table(self, shape, f, kind='f'):
        if not isinstance(shape, tuple):
            shape = (shape,)
        a = np.zeros(shape, dtype={'f': float, 'i': int, 'b': bool}[kind])
        for i in self._idx(shape):
            a[i] = f(*i)
        return a

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def exp(self, x):
        return np.exp(x)

    def log(self, x):
        with np.errstate(divide='ignore', invalid='ignore'):
            return np.log(x)

    def sqrt(self, x):
        return np.sqrt(x)

    def abs(self, x):
        return abs(x)

    def sign(self, x):
        return np.sign(x)

    def floor(self, x):
        return math.floor(x)

    def maximum(self, a, b):
        return max(a, b)

    def minimum(self, a, b):
        return min(a, b)

    def median(self, n, f):
        return np.median([f(i) for i in range(int(n))])

    def max_over(self, n, f):
        return max(f(*i) for i in self._idx(n))

    def min_over(self, n, f):
        return min(f(*i) for i in self._idx(n))

    def dvalue(self, f, a, *idx):
        h = 1e-5
        p, q = np.array(a, dtype=float), np.array(a, dtype=float)
        p[idx] += h
        q[idx] -= h
        return (float(f(p)) - float(f(q))) / (2 * h)

    def whole(self, v):
        if v != int(v):
            raise TypeError('%r is not a position' % (v,))
        return int(v)

    def each(self, n, f):
        for i in self._idx(n):
            f(*i)

    def requires(self, c):
        if not c:
            raise Reject()

    def assume_fact(self, c, why=None):
        """something the symbolic mode assumes about a dependency: checked here"""
        self.checks += 1
        if not c:
            raise Violation('assumed dependency contract', 'assumption does not hold')

    # -- obligations
    def layout(self, name, a):
        how = self.choice('layout ' + name, ['C', 'F', 'strided', 'reversed', 'C'])
        if how == 'F':
            return np.asfortranarray(a)
        if how == 'strided':
            b = np.full(tuple(2 * s for s in a.shape), 3, dtype=a.dtype)
            v = b[tuple(slice(0, None, 2) for s in a.shape)]
            v[...] = a
            return v
        if how == 'reversed':
            return a[::-1].copy()[::-1]
        return a

    def ensure_no_alias(self, label, owner, a):
        for k in sorted(vars(owner)):
            v = vars(owner)[k]
            if k[0] != '_' and isinstance(v, np.ndarray):
                self.ensure(label, not np.shares_memory(v, a))

    def random_state(self, seed):
        return np.random.RandomState(seed)

    def watch_global(self):
        np.random.seed(self.nprng.randint(2 ** 31))
        st = np.random.get_state()

        def check(label):
            now = np.random.get_state()
            self.ensure(label, st[2:] == now[2:] and (st[1] == now[1]).all())
        return check

    def ensure_advanced(self, label, xs):
        self.ensure(label, len(set(float(x) for x in xs)) == len(xs))

    def ensure(self, label, c):
        self.checks += 1
        if not bool(c):
            raise Violation(label, 'false')

    def close(self, a, b, tol):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a == b if not (a is None) ^ (b is None) else False
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
            return bool(np.all(a == b))
        a, b = a.astype(float), b.astype(float)
        return np.allclose(a, b, rtol=tol, atol=tol * max(1.0, np.max(np.abs(b[np.isfinite(b)]), initial=0.) * 1e-2), equal_nan=True)

    def ensure_eq(self, label, a, b, tol=1e-7):
        self.checks += 1
        if not self.close(a, b, tol):
            raise Violation(label, 'got %r, expected %r' % (tolist(a), tolist(b)))

    def ensure_shape(self, label, a, shape):
        self.checks += 1
        if tuple(np.shape(a)) != tuple(int(s) for s in shape):
            raise Violation(label + ': shape', 'got %r, expected %r' % (np.shape(a), tuple(shape)))
        return True

    def matches(self, n, f, g):
        return all(self.close(np.asarray(float(f(i))), np.asarray(float(g(i))), 1e-12) for i in range(int(n)))

    def ensure_array(self, label, a, shape, f, tol=1e-7, kind=None):
        if not isinstance(a, np.ndarray):
            if isinstance(a, (list, tuple)):
                a = np.asarray(a)
            elif len(shape) == 0:
                return self.ensure_eq(label, a, f(), tol)
            else:
                raise Violation(label + ': array expected', repr(type(a)))
        self.ensure_shape(label, a, shape)
        if kind is not None and {'f': 'f', 'i': 'iu', 'b': 'b'}[kind].find(a.dtype.kind) < 0:
            raise Violation(label + ': dtype', 'got %s' % a.dtype)
        want = np.zeros(tuple(int(s) for s in shape))
        for i in self._idx(tuple(shape)):
            want[i] = f(*i)
        if not self.close(np.asarray(a, dtype=float), want, tol):
            raise Violation(label, 'got %r, expected %r' % (a.tolist(), want.tolist()))

    def ensure_unique_rows(self, label, a, n, m, f):
        self.checks += 1
        if not isinstance(a, np.ndarray) or a.ndim != 2 or a.dtype != bool:
            raise Violation(label + ': 2-d boolean array', 'got %s %s' % (getattr(a, 'dtype', type(a)), np.shape(a)))
        if a.shape[1] != int(m):
            raise Violation(label + ': one column per feature', 'got %r' % (a.shape,))
        want = {tuple(bool(f(i, j)) for j in range(int(m))) for i in range(int(n))}
        got = [tuple(r) for r in a.tolist()]
        if set(got) != want or len(got) != len(want):
            raise Violation(label + ': rows', 'got %r, expected %r' % (got, sorted(want)))

    def raises(self, exc, fn):
        if not isinstance(exc, tuple):
            exc = (exc,)
        try:
            return False, fn()
        except Exception as e:
            if isinstance(e, exc):
                return True, e
            raise

    def note(self, **k):
        self.inputs.update(k)

    def fail(self, label, why=''):
        raise Violation(label, why)
