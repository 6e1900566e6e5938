"""Discharging obligations: normal forms, case splits, pointwise reduction of
sums, congruence of opaque functions, and z3 for integer/real conditions."""
import time
from itertools import permutations, product as iproduct
import z3
from . import terms as T
from .terms import P, ZERO, ONE, F0, F1

STATS = {"z3_queries": 0, "z3_time": 0.0, "cvc5_queries": 0}
Z3_TIMEOUT = 4000


class Z3T:
    """translation of terms to z3"""

    def __init__(self):
        self.memo = {}
        self.facts = []
        self.seenvars = set()

    def var(self, a):
        n = a.args[0]
        v = z3.Int(n) if a.sort == 'i' else z3.Real(n)
        if n not in self.seenvars:
            self.seenvars.add(n)
            if a.lo is not None:
                self.facts.append(v >= self.poly(a.lo))
            if a.hi is not None:
                self.facts.append(v < self.poly(a.hi))
        return v

    def poly(self, p):
        r = self.memo.get(p)
        if r is not None:
            return r
        isint = p.sort == 'i'
        ts = []
        for m, c in p.terms:
            t = None
            for a, e in m:
                x = self.atom(a)
                if not isint and z3.is_int(x):
                    x = z3.ToReal(x)
                if e < 0:
                    y = z3.Real("inv!%d" % a.uid)
                    self.facts.append(z3.Implies(x != 0, y * x == 1))
                    x, e = y, -e
                for _ in range(e):
                    t = x if t is None else t * x
            if isint:
                cc = z3.IntVal(int(c))
            else:
                cc = z3.RealVal(str(c))
            if t is None:
                t = cc
            elif c != 1:
                t = cc * t
            ts.append(t)
        if not ts:
            r = z3.IntVal(0) if isint else z3.RealVal(0)
        elif len(ts) == 1:
            r = ts[0]
        else:
            r = z3.Sum(ts)
        self.memo[p] = r
        return r

    def cond(self, a):
        """z3 Bool of an indicator atom"""
        kind, p = a.args
        if kind == 'eq':
            return self.poly(p) == 0
        if kind == 'ge':
            return self.poly(p) >= 0
        if kind == 'any':
            k = ("any", a)
            if k in self.memo:
                return self.memo[k]
            vs, b = T.open_lam(p)
            zs = [z3.Int(v.args[0]) for v in vs]
            for v in vs:
                self.seenvars.add(v.args[0])
            rng = []
            nf = len(self.facts)
            for z, d in zip(zs, p.dims):
                rng += [z >= 0, z < self.poly(d)]
            bb = self.poly(b) >= 1
            inner = self.facts[nf:]
            names = [v.args[0] for v in vs]
            keep, loc = [], []
            for f in inner:
                (loc if any(n in str(f) for n in names) else keep).append(f)
            self.facts[nf:] = keep
            r = z3.Exists(zs, z3.And(*(rng + loc + [bb])))
            self.memo[k] = r
            return r
        x = self.poly(p)
        return x != 0

    def boolpoly(self, p):
        """z3 Bool for a 0/1 poly"""
        a = p.single_atom()
        if a is not None and a.head == 'ind':
            return self.cond(a)
        q = ONE - p
        a = q.single_atom()
        if a is not None and a.head == 'ind':
            return z3.Not(self.cond(a))
        if len(p.terms) == 1 and p.terms[0][1] == 1 and all(
                a.head == 'ind' for a, _ in p.terms[0][0]):
            return z3.And(*[self.cond(a) for a, _ in p.terms[0][0]])
        return self.poly(p) >= 1

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        h = a.head
        if h == 'var':
            r = self.var(a)
        elif h == 'ind':
            r = z3.If(self.cond(a), z3.IntVal(1), z3.IntVal(0))
        elif h == 'app' and all(isinstance(x, T.Poly) for x in a.args[1:]):
            args = [self.poly(x) for x in a.args[1:]]
            sorts = [x.sort() for x in args]
            rs = z3.IntSort() if a.sort == 'i' else z3.RealSort()
            if args:
                f = z3.Function(a.args[0] + "/%d%s" % (len(args), "".join(str(s)[0] for s in sorts)), *(sorts + [rs]))
                r = f(*args)
            else:
                r = z3.Const(a.args[0], rs)
            self.memo[a] = r
            if a.args[0] in APPFACTS:
                for f in APPFACTS[a.args[0]](a):
                    self.facts.append(self.boolpoly(f))
        elif h == 'fdiv':
            x, y = self.poly(a.args[0]), self.poly(a.args[1])
            r = self.opaque(a)
            self.facts.append(z3.Implies(y > 0, z3.And(y * r <= x, x < y * r + y)))
        elif h == 'floor':
            x = self.poly(a.args[0])
            r = self.opaque(a)
            self.facts.append(z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1))
        else:
            r = self.opaque(a)
            self.memo[a] = r
            if h == 'app' and a.args[0] in ('nzrank', 'nzpos', 'argmax', 'argmaxof', 'medianof', 'argsort'):
                for f in APPFACTS[a.args[0]](a):
                    self.facts.append(self.boolpoly(f))
            elif h == 'exp':
                self.facts.append(r > 0)
            elif h == 'sqrt':
                x = self.poly(a.args[0])
                if z3.is_int(x):
                    x = z3.ToReal(x)
                self.facts.append(z3.And(r >= 0, z3.Implies(x >= 0, r * r == x)))
            elif h == 'inv':
                x = self.poly(a.args[0])
                if z3.is_int(x):
                    x = z3.ToReal(x)
                self.facts.append(z3.Implies(x != 0, r * x == 1))
            elif h == 'sum':
                if T.atom_positive(a):
                    self.facts.append(r > 0)
                elif T.atom_nonneg(a):
                    self.facts.append(r >= 0)
                dims, body, hh = a.args
                # a sum of 0/1 terms is at most the number of terms
                if body.sort == 'i' and len(body.terms) == 1 and all(
                        x.head == 'ind' for x, _ in body.terms[0][0]):
                    tot = ONE
                    for d in dims:
                        tot = tot * d
                    self.facts.append(r <= self.poly(tot))
        self.memo[a] = r
        return r

    def opaque(self, a):
        # abstract over integer index variables, so that equal shapes at
        # different indices share one function symbol
        names = sorted(n for n in a.fv if T._varreg.get(n) is not None and
                       T._varreg[n].sort == 'i' and T._varreg[n].hi is not None)
        rs = z3.IntSort() if a.sort == 'i' else z3.RealSort()
        if names:
            vs = [T._varreg[n] for n in names]
            # order-independent closing: try one order by first occurrence
            l = T.mklam(vs, [ONE] * len(vs), P(a))
            f = z3.Function("op!%d" % l.uid, *([z3.IntSort()] * len(vs) + [rs]))
            return f(*[self.var(v) for v in vs])
        if a.sort == 'i':
            return z3.Int("op!a%d" % a.uid)
        return z3.Real("op!a%d" % a.uid)


APPFACTS = {}
PAIRFACTS = {}     # head -> facts about two applications to the same function
AXIOMS = []      # functions (z3t) -> list of z3 facts


def _solver(hyps, timeout=None):
    t = Z3T()
    s = z3.Solver()
    s.set("timeout", timeout or Z3_TIMEOUT)
    for h in hyps:
        s.add(t.boolpoly(h))
    return s, t


_dm = {}


def feasible(hyps, timeout=None):
    """False if z3 proves hyps contradictory, else True"""
    hyps = [h for h in hyps if h is not ONE]
    if any(h is ZERO for h in hyps):
        return False
    if not hyps:
        return True
    k = ("f", tuple(sorted(h.uid for h in hyps)))
    if k in _dm:
        return _dm[k]
    t0 = time.time()
    s, t = _solver(hyps, timeout)
    for f in t.facts:
        s.add(f)
    r = s.check()
    STATS["z3_queries"] += 1
    STATS["z3_time"] += time.time() - t0
    _dm[k] = r != z3.unsat
    return _dm[k]


def implied(cond, hyps, timeout=None):
    """True if hyps |= cond by z3"""
    if cond is ONE:
        return True
    hyps = [h for h in hyps if h is not ONE]
    k = ("i", cond.uid, tuple(sorted(h.uid for h in hyps)))
    if k in _dm:
        return _dm[k]
    t0 = time.time()
    s, t = _solver(hyps, timeout)
    s.add(z3.Not(t.boolpoly(cond)))
    for f in t.facts:
        s.add(f)
    r = s.check()
    STATS["z3_queries"] += 1
    STATS["z3_time"] += time.time() - t0
    _dm[k] = r == z3.unsat
    return _dm[k]


def decide(cond, hyps):
    """True / False / None"""
    c = cond.const()
    if c is not None:
        return c != 0
    if implied(cond, hyps):
        return True
    if implied(T.lnot(cond), hyps):
        return False
    return None


# ------------------------------------------------------------ rewriting

def replace_atoms(x, rep, memo=None):
    """rebuild x with atoms replaced (rep: Atom -> Poly); looks inside sums for
    closed atoms too"""
    if memo is None:
        memo = {}
    if isinstance(x, T.Poly):
        r = memo.get(x)
        if r is not None:
            return r
        out = []
        changed = False
        for m, c in x.terms:
            t = P(c)
            for a, e in m:
                na = replace_atoms(a, rep, memo)
                if na.single_atom() is not a:
                    changed = True
                t = T.mul(t, T.power(na, e)) if e > 0 else T.mul(t, T.inv(T.power(na, -e)))
            out.append(t)
        r = T.add_many(out) if changed else x
        memo[x] = r
        return r
    if isinstance(x, T.Lam):
        r = memo.get(x)
        if r is None:
            dims = [replace_atoms(d, rep, memo) for d in x.dims]
            nb = None
            vs, b = T.open_lam(x)
            nb = replace_atoms(b, rep, memo)
            r = x if (nb is b and all(d1 is d2 for d1, d2 in zip(dims, x.dims))) else T.mklam(vs, dims, nb)
            memo[x] = r
        return r
    a = x
    r = rep.get(a)
    if r is not None:
        return r
    r = memo.get(a)
    if r is not None:
        return r
    r = _replace_in(a, rep, memo)
    memo[a] = r
    return r


def _replace_in(a, rep, memo):
    h = a.head
    if h == 'var':
        return P(a)
    if h == 'app':
        args = tuple(y if isinstance(y, str) else replace_atoms(y, rep, memo) for y in a.args[1:])
        if all(p is q for p, q in zip(args, a.args[1:])):
            return P(a)
        return T.rebuild_app(a.args[0], args, a.sort)
    if h == 'ind':
        kind, p = a.args
        if kind == 'any':
            vs, b = T.open_lam(p)
            nb = replace_atoms(b, rep, memo)
            dims = [replace_atoms(d, rep, memo) for d in p.dims]
            if nb is b and all(d1 is d2 for d1, d2 in zip(dims, p.dims)):
                return P(a)
            return T.tany(vs, dims, nb)
        q = replace_atoms(p, rep, memo)
        if q is p:
            return P(a)
        if kind == 'eq':
            return T.eq0(q)
        if kind == 'ge':
            return T.ge0(q)
        return T.ind('b', q) if q.const() is None else (ONE if q.const() else ZERO)
    if h == 'sum':
        dims, body, hh = a.args
        vs, b = T.open_sum(a)
        nb = replace_atoms(b, rep, memo)
        nd = [replace_atoms(d, rep, memo) for d in dims]
        if nb is b and all(d1 is d2 for d1, d2 in zip(dims, nd)):
            return P(a)
        return T.tsum(vs, nd, nb)
    args = [replace_atoms(y, rep, memo) for y in a.args]
    if all(p is q for p, q in zip(args, a.args)):
        return P(a)
    return T.rebuild(h, args)


def atoms_of(x, acc=None, deep=True):
    """atoms occurring in x (not under binders)"""
    if acc is None:
        acc = {}
    if isinstance(x, T.Poly):
        for m, _ in x.terms:
            for a, _e in m:
                atoms_of(a, acc, deep)
    elif isinstance(x, T.Atom):
        if x in acc:
            return acc
        acc[x] = True
        if deep and x.head in ('exp', 'log', 'sqrt', 'inv', 'fdiv', 'floor'):
            for y in x.args:
                atoms_of(y, acc, deep)
        elif deep and x.head == 'app':
            for y in x.args[1:]:
                if isinstance(y, T.Poly):
                    atoms_of(y, acc, deep)
        elif deep and x.head == 'ind' and x.args[0] != 'any':
            atoms_of(x.args[1], acc, deep)
        elif deep and x.head == 'sum':
            # closed indicator factors inside a sum body
            for d in x.args[0]:
                atoms_of(d, acc, deep)
    return acc


def inner_closed_inds(x, acc):
    """indicator atoms under binders that mention no bound variable"""
    if isinstance(x, T.Poly):
        for m, _ in x.terms:
            for a, _e in m:
                inner_closed_inds(a, acc)
    elif isinstance(x, T.Lam):
        inner_closed_inds(x.body, acc)
    elif isinstance(x, T.Atom):
        if x.head == 'ind' and not _mentions_bound(x):
            acc[x] = True
        for y in x.args:
            if isinstance(y, (T.Poly, T.Lam)):
                inner_closed_inds(y, acc)
    return acc


_mb = {}


def _mentions_bound(x, depth=0):
    """does x mention a bound variable that is not bound inside x?"""
    return bool(_loose(x))


_lm = {}


def _loose(x):
    r = _lm.get(x)
    if r is not None:
        return r
    if isinstance(x, T.Poly):
        r = frozenset()
        for m, _ in x.terms:
            for a, _e in m:
                r = r | _loose(a)
    elif isinstance(x, T.Lam):
        r = _loose(x.body)
        for d in x.dims:
            r = r | _loose(d)
        r = frozenset(n for n in r if not n.startswith("#%d." % x.height))
    elif isinstance(x, T.Atom):
        if x.head == 'var':
            r = frozenset([x.args[0]]) if x.args[0].startswith('#') else frozenset()
        elif x.head == 'sum':
            r = _loose(x.args[1])
            for d in x.args[0]:
                r = r | _loose(d)
            r = frozenset(n for n in r if not n.startswith("#%d." % x.args[2]))
        else:
            r = frozenset()
            for y in x.args:
                if isinstance(y, (T.Poly, T.Lam)):
                    r = r | _loose(y)
    else:
        r = frozenset()
    _lm[x] = r
    return r


def flatten_hyps(hyps):
    out = []
    for h in hyps:
        if h is ONE:
            continue
        if len(h.terms) == 1 and h.terms[0][1] == 1:
            for a, _ in h.terms[0][0]:
                out.append(P(a))
        else:
            out.append(h)
    return out


def _match_terms(lam, v, body, pool):
    """index terms at which a quantified body mentioning v may be useful"""
    heads = {}
    dim = lam
    out = []
    for a in all_atoms(body):
        if a.head == 'app':
            for k, y in enumerate(a.args[1:]):
                if isinstance(y, T.Poly) and y.single_atom() is v:
                    heads.setdefault((a.args[0], len(a.args)), set()).add(k)
    for a in pool:
        if a.head == 'app' and (a.args[0], len(a.args)) in heads:
            for k in heads[(a.args[0], len(a.args))]:
                y = a.args[1 + k]
                if isinstance(y, T.Poly) and y not in out and not _mentions_bound(y):
                    out.append(y)
    return out


def all_atoms(x, acc=None):
    """atoms of x, under binders too (bound variables may occur loose)"""
    if acc is None:
        acc = {}
    if isinstance(x, T.Poly):
        for m, _ in x.terms:
            for a, _e in m:
                all_atoms(a, acc)
    elif isinstance(x, T.Lam):
        all_atoms(x.body, acc)
        for d in x.dims:
            all_atoms(d, acc)
    elif isinstance(x, T.Atom):
        if x in acc:
            return acc
        acc[x] = True
        for y in x.args:
            if isinstance(y, (T.Poly, T.Lam)):
                all_atoms(y, acc)
            elif isinstance(y, tuple):
                for z in y:
                    all_atoms(z, acc)
    return acc


def expand_quant(hyps, goal=None, rounds=2, limit=60):
    """skolemise existential hypotheses, instantiate universal ones at the
    index terms occurring in the other hypotheses and the goal"""
    hyps = flatten_hyps(hyps)
    uni, rest, skol = [], [], False
    done = set()
    for h in hyps:
        a = h.single_atom()
        if a is not None and a.head == 'ind' and a.args[0] == 'any':
            lam = a.args[1]
            vs, b = T.open_lam(lam)
            for v, d in zip(vs, lam.dims):
                rest += [T.ge(P(v), ZERO), T.lt(P(v), d)]
            rest += flatten_hyps([b])
            skol = True
            continue
        a = (ONE - h).single_atom()
        if a is not None and a.head == 'ind' and a.args[0] == 'any':
            uni.append(a.args[1])
        rest.append(h)
    if not uni:
        return flatten_hyps(rest), skol
    new = skol
    for _ in range(rounds):
        pool = {}
        for h in rest + ([goal] if goal is not None else []):
            all_atoms(h, pool)
        ivars = [P(a) for a in pool if a.head == 'var' and a.sort == 'i' and '$' in a.args[0] and not a.args[0].startswith('#')]
        added = False
        for lam in uni:
            vs, b = T.open_lam(lam)
            cands = []
            for v, d in zip(vs, lam.dims):
                c = _match_terms(lam, v, b, pool)
                for x in ivars:
                    if x not in c and (x.single_atom().hi is d):
                        c.append(x)
                if not c:
                    c = [x for x in ivars][:4]
                cands.append(c[:8])
            n = 0
            for combo in iproduct(*cands):
                key = (lam,) + combo
                if key in done:
                    continue
                n += 1
                if n > limit:
                    break
                done.add(key)
                env = {v.args[0]: x for v, x in zip(vs, combo)}
                inst = T.subst(b, env)
                rng = ONE
                for x, d in zip(combo, lam.dims):
                    rng = T.land(rng, T.ge(x, ZERO), T.lt(x, d))
                f = T.lnot(T.land(rng, inst))
                if f is not ONE:
                    rest += flatten_hyps([f])
                    added = new = True
        if not added:
            break
    return rest, new


def has_quant(hyps):
    for h in hyps:
        for q in (h, ONE - h):
            a = q.single_atom()
            if a is not None and a.head == 'ind' and a.args[0] == 'any':
                return True
    return False


def contradictory(hyps):
    hyps = flatten_hyps(hyps)
    if not feasible(hyps):
        return True
    if has_quant(hyps):
        h2, new = expand_quant(hyps)
        if new:
            h3 = [h for h in h2 if not has_quant([h])]
            return not feasible(h3) or not feasible(h2)
    return False


def deep_atoms(x, want, acc=None, seen=None):
    """atoms with head/name in want anywhere in x, free of bound variables"""
    if acc is None:
        acc, seen = {}, set()
    if isinstance(x, str) or x is None:
        return acc
    if isinstance(x, tuple):
        for y in x:
            deep_atoms(y, want, acc, seen)
        return acc
    if x in seen:
        return acc
    seen.add(x)
    if isinstance(x, T.Poly):
        for m, _ in x.terms:
            for a, _e in m:
                deep_atoms(a, want, acc, seen)
    elif isinstance(x, T.Lam):
        for d in x.dims:
            deep_atoms(d, want, acc, seen)
        deep_atoms(x.body, want, acc, seen)
    elif isinstance(x, T.Atom):
        for y in x.args:
            deep_atoms(y, want, acc, seen)
        k = x.args[0] if x.head == 'app' else x.head
        if k in want and not any(n.startswith('#') for n in x.fv):
            acc[x] = True
    return acc


def pair_facts(p):
    """facts about pairs of applications occurring anywhere in p"""
    out = []
    if PAIRFACTS:
        ats = list(deep_atoms(p, tuple(PAIRFACTS)))[:8]
        for i, a in enumerate(ats):
            for b in ats[:i]:
                if a.args[:2] == b.args[:2]:
                    out += PAIRFACTS[a.args[0]](a, b)
    return [f for f in out if f is not ONE]


def rank_simp(p, hyps):
    """positions and ranks within masks"""
    cand = deep_atoms(p, ('nzrank', 'nzpos', 'fdiv'))
    if not any(a.head == 'app' for a in cand):
        return p
    rep = {}
    for a in cand:
        if a.head == 'app' and a.args[0] == 'nzpos':
            l, k = a.args[1], a.args[2]
            b = k.single_atom() if isinstance(k, T.Poly) else None
            if b is not None and b.head == 'app' and b.args[0] == 'nzrank' and b.args[1] is l:
                if decide(T.open_lam(l, [b.args[2]]), hyps) is True:
                    rep[a] = b.args[2]
        elif a.head == 'app':
            r = rank_blocks(a, hyps)
            if r is not None:
                rep[a] = r
        else:
            x, y = a.args
            if not deep_atoms(x, ('nzrank',)):
                continue
            for c in range(4):
                q = x - P(c) * y
                if decide(T.ge(q, ZERO), hyps) is True and decide(T.lt(q, y), hyps) is True:
                    rep[a] = P(c)
                    break
    return replace_atoms(p, rep) if rep else p


def rank_blocks(a, hyps):
    """rank in a mask of K blocks of d entries: the counts of the blocks before, plus the rank in the block"""
    l, x = a.args[1], a.args[2]
    if len(l.dims) != 1:
        return None
    D = l.dims[0]
    if len(D.terms) != 1 or D.const() is not None:
        return None
    m, K = D.terms[0]
    if K != int(K) or K < 2 or K > 6:
        return None
    d = D * P(T.Fraction(1, int(K)))
    for c in range(int(K)):
        i = x - P(c) * d
        if decide(T.ge(i, ZERO), hyps) is True and decide(T.lt(i, d), hyps) is True:
            break
    else:
        return None
    v = T.fresh_index(d)
    tot = ZERO
    for e in range(c):
        tot = tot + T.tsum([v], [d], T.open_lam(l, [P(v) + P(e) * d]))
    g = T.mklam([v], [d], T.open_lam(l, [P(v) + P(c) * d]))
    return tot + T.rebuild_app('nzrank', (g, i), 'i')


class Prover:
    def __init__(self, hyps=(), deadline=None, depth=14):
        self.hyps = flatten_hyps(hyps)
        self.deadline = deadline
        self.maxdepth = depth

    def out_of_time(self):
        return self.deadline is not None and time.time() > self.deadline

    # -- simplification of p under hyps
    def simp(self, p, hyps):
        hyps, rep, sub = self.use_hyps(hyps)
        if sub:
            # ranges that mention an eliminated variable stay known
            new = []
            for v in [a for a in atoms_of(p) if a.head == "var" and a.hi is not None]:
                if v.args[0] not in sub:
                    hi = T.subst(v.hi, sub)
                    if hi is not v.hi:
                        f = T.ge(hi - ONE, P(v))
                        if f is not ONE and f not in hyps:
                            new.append(f)
            p = T.subst(p, sub)
            if new:
                hyps, rep2, sub2 = self.use_hyps(hyps + new)
                rep.update(rep2)
                if sub2:
                    p = T.subst(p, sub2)
        if rep:
            p = replace_atoms(p, rep)
        # decide remaining indicator atoms
        for _ in range(6):
            inds = {}
            for a in atoms_of(p):
                if a.head == 'ind':
                    inds[a] = True
            inner_closed_inds(p, inds)
            rep2 = {}
            for a in inds:
                if not relevant(a, hyps):
                    continue
                r = decide(P(a), hyps)
                if r is not None:
                    rep2[a] = ONE if r else ZERO
            if not rep2:
                break
            p = replace_atoms(p, rep2)
        p = self.simp_sums(p, hyps)
        for _ in range(4):
            q = rank_simp(p, hyps)
            if q is p:
                break
            p = q
        return p, hyps

    def simp_sums(self, p, hyps):
        """decide indicators inside sum bodies using the binder ranges"""
        rep = {}
        for m, _ in p.terms:
            for a, _e in m:
                if a.head == 'sum' and a not in rep and any(
                        x.head == 'ind' for x in atoms_of(a.args[1])):
                    vs, b = T.open_sum(a)
                    inds = [x for x in atoms_of(b) if x.head == 'ind']
                    r2 = {}
                    for x in inds:
                        r = decide(P(x), hyps)
                        if r is not None:
                            r2[x] = ONE if r else ZERO
                    if r2:
                        rep[a] = T.tsum(vs, a.args[0], replace_atoms(b, r2))
        return replace_atoms(p, rep) if rep else p

    def use_hyps(self, hyps):
        """turn literal hypotheses into replacements and equalities into
        substitutions"""
        rep = {}
        sub = {}
        hyps = flatten_hyps(hyps)
        changed = True
        n = 0
        while changed and n < 6:
            changed = False
            n += 1
            for h in list(hyps):
                a = h.single_atom()
                if a is not None and a.head == 'ind' and a.args[0] == 'eq':
                    v = self.solvable(a.args[1])
                    if v is not None:
                        var, val = v
                        env = {var.args[0]: val}
                        hyps = [T.subst(x, env) for x in hyps if x is not h]
                        # keep range facts of the eliminated variable
                        if var.lo is not None:
                            hyps.append(T.ge(val, T.subst(var.lo, env)))
                        if var.hi is not None:
                            hyps.append(T.ge(T.subst(var.hi, env) - ONE, val))
                        hyps = flatten_hyps(hyps)
                        sub = {k: T.subst(x, env) for k, x in sub.items()}
                        sub[var.args[0]] = val
                        changed = True
                        break
        for h in hyps:
            a = h.single_atom()
            if a is not None and a.head == 'ind':
                rep[a] = ONE
                if a.args[0] == 'eq':
                    r = self.eq_rep(a.args[1])
                    if r is not None:
                        rep[r[0]] = r[1]
                continue
            q = ONE - h
            a = q.single_atom()
            if a is not None and a.head == 'ind':
                rep[a] = ZERO
        return hyps, rep, sub

    @staticmethod
    def eq_rep(p):
        """p = 0 with an App atom occurring linearly with unit coefficient"""
        for m, c in p.terms:
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].head in ('app',):
                a = m[0][0]
                rest = T._from_dict({mm: cc for mm, cc in p.terms if mm != m})
                if a in atoms_of(rest):
                    continue
                return a, (-rest if c == 1 else rest)
        return None

    @staticmethod
    def solvable(p):
        cands = []
        for m, c in p.terms:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].head == 'var':
                a = m[0][0]
                if a.args[0].startswith('#'):
                    continue
                if a.sort == 'i' and abs(c) != 1:
                    continue
                rest = T._from_dict({mm: cc for mm, cc in p.terms if mm != m})
                if a.args[0] in rest.fv:
                    continue
                val = rest * P(-1 / c)
                if a.sort == 'i' and val.sort != 'i':
                    continue
                cands.append((a, val))
        if not cands:
            return None
        # prefer eliminating fresh index variables
        cands.sort(key=lambda t: (0 if '$' in t[0].args[0] else 1, -t[0].uid))
        return cands[0]

    # -- main entries
    def eq(self, a, b):
        return self.zero(a - b, self.hyps, 0)

    def true(self, c):
        """0/1 poly c is 1"""
        if c is ONE:
            return True
        if implied(c, self.hyps):
            return True
        return self.zero(ONE - c, self.hyps, 0)

    def zero(self, d, hyps, depth):
        if d is ZERO:
            return True
        if depth > self.maxdepth or self.out_of_time():
            return False
        if d.const() is not None:
            return contradictory(hyps)
        d, hyps = self.simp(d, hyps)
        if d is ZERO:
            return True
        d = clear_denoms(d)
        if d is ZERO:
            return True
        if d.const() is not None:
            return contradictory(hyps)
        # case split on an indicator
        inds = [a for a in atoms_of(d) if a.head == 'ind']
        if not inds:
            inds = list(inner_closed_inds(d, {}))
        if inds:
            # most frequent first
            cnt = {}
            for m, _ in d.terms:
                for a, _e in m:
                    if a.head == 'ind':
                        cnt[a] = cnt.get(a, 0) + 1
            inds.sort(key=lambda a: (a.args[0] == 'any', -cnt.get(a, 0), a.uid))
            a = inds[0]
            ok = True
            for val in (ONE, ZERO):
                lit = P(a) if val is ONE else ONE - P(a)
                h2 = hyps + [lit]
                if not feasible(h2):
                    continue
                if not self.zero(replace_atoms(d, {a: val}), h2, depth + 1):
                    ok = False
                    break
            if ok:
                return True
            return self.last(d, hyps)
        d2 = self.merge_sums(d, hyps, depth)
        if d2 is ZERO:
            return True
        d3 = self.congruence(d2, hyps, depth)
        if d3 is ZERO:
            return True
        if d3 is not d:
            return self.zero(d3, hyps, depth + 1)
        return self.last(d3, hyps)

    def last(self, d, hyps):
        if implied(T.eq0(d), hyps):
            return True
        if has_quant(hyps) and not self.inq:
            h2, new = expand_quant(hyps, d)
            if new:
                self.inq = True
                try:
                    h3 = [h for h in h2 if not has_quant([h])]
                    return self.zero(d, h3, self.maxdepth - 6)
                finally:
                    self.inq = False
        return False

    inq = False

    # -- sums: equal binder ranges => compare bodies pointwise
    def merge_sums(self, d, hyps, depth):
        groups = {}
        rest = []
        for m, c in d.terms:
            sums = [(a, e) for a, e in m if a.head == 'sum' and e == 1]
            if len(sums) != 1:
                # several sums: try each as the distinguished one is too costly
                rest.append((m, c))
                continue
            a = sums[0][0]
            others = tuple(x for x in m if x[0] is not a)
            for dim in a.args[0]:
                groups.setdefault(dim, []).append((a, others, c, m))
        if not groups:
            return d
        # pick each outer dim; pull the other factors inside
        for dim, items in sorted(groups.items(), key=lambda t: -len(t[1])):
            seen = set()
            its = []
            for it in items:
                if it[3] not in seen:
                    seen.add(it[3])
                    its.append(it)
            # partition by compatible factors: factors outside are common
            # only if all equal; otherwise they go inside
            v = T.fresh_index(dim)
            choices = []
            for a, others, c, m in its:
                opts = []
                for j, dd in enumerate(a.args[0]):
                    if dd is dim:
                        opts.append(j)
                choices.append(opts)
            ncomb = 1
            for o in choices:
                ncomb *= len(o)
            if ncomb > 64:
                continue
            for combo in iproduct(*choices):
                bodies = []
                for (a, others, c, m), j in zip(its, combo):
                    vs, b = T.open_sum(a)
                    env = {vs[j].args[0]: P(v)}
                    b = T.subst(b, env)
                    inner = [(x, dd) for k, (x, dd) in enumerate(zip(vs, a.args[0])) if k != j]
                    for x, dd in reversed(inner):
                        b = T.sum1(x, dd, b)
                    bodies.append(P(c) * T.mono_poly(others) * b)
                tot = T.add_many(bodies)
                extra = self.divisible(rest, dim)
                for ex in ((extra, ()) if extra else ((),)):
                    t2 = tot + T.add_many([b for _, b in ex]) if ex else tot
                    if self.zero(t2, hyps, depth + 1):
                        drop = {m for _, _, _, m in its} | {m for m, _ in ex}
                        return T._from_dict({m: c for m, c in d.terms if m not in drop})
        return d

    @staticmethod
    def divisible(rest, dim):
        """terms c*m of rest that are sums of a constant over the range dim"""
        if len(dim.terms) != 1 or dim.terms[0][1] != 1 or not dim.terms[0][0]:
            return ()
        out = []
        for m, c in rest:
            md = dict(m)
            ok = all(md.get(a, 0) >= e for a, e in dim.terms[0][0])
            if ok:
                for a, e in dim.terms[0][0]:
                    md[a] -= e
                    if md[a] == 0:
                        del md[a]
                out.append((m, T._from_dict({tuple(sorted(md.items(), key=lambda t: t[0].uid)): c})))
        return out

    # -- opaque functions applied to equal arguments are equal
    def congruence(self, d, hyps, depth):
        apps = {}
        for a in atoms_of(d):
            if a.head == 'app' and any(isinstance(x, (T.Lam, T.Poly)) for x in a.args[1:]):
                apps.setdefault((a.args[0], len(a.args)), []).append(a)
            elif a.head in ('log', 'exp', 'sqrt', 'inv'):
                apps.setdefault((a.head, 0), []).append(a)
        for (h, n), lst in apps.items():
            for i in range(len(lst)):
                for j in range(i):
                    if self.same_args(lst[i], lst[j], hyps, depth):
                        return replace_atoms(d, {lst[i]: P(lst[j])})
        return d

    def same_args(self, a, b, hyps, depth):
        aa = a.args[1:] if a.head == 'app' else a.args
        bb = b.args[1:] if b.head == 'app' else b.args
        if len(aa) != len(bb):
            return False
        for x, y in zip(aa, bb):
            if x is y:
                continue
            if isinstance(x, str) or isinstance(y, str):
                return False
            if isinstance(x, T.Lam) != isinstance(y, T.Lam):
                return False
            if isinstance(x, T.Poly):
                if not self.zero(x - y, hyps, depth + 2):
                    return False
            elif not self.same_lam(x, y, hyps, depth):
                return False
        return True

    def same_lam(self, x, y, hyps, depth):
        if len(x.dims) != len(y.dims):
            return False
        for p, q in zip(x.dims, y.dims):
            if p is not q and not self.zero(p - q, hyps, depth + 2):
                return False
        vs, b1 = T.open_lam(x)
        b2 = T.open_lam(y, [P(v) for v in vs])
        return self.zero(b1 - b2, hyps, depth + 2)


def relevant(a, hyps):
    return True


def clear_denoms(d):
    """multiply by the denominators (assumed nonzero) at top level"""
    for _ in range(4):
        dens = {}
        for m, _ in d.terms:
            for a, e in m:
                if a.head == 'inv':
                    dens[a] = max(dens.get(a, 0), e)
                elif e < 0:
                    dens[a] = max(dens.get(a, 0), -e)
        if not dens:
            return d
        f_atoms = [(a, e) for a, e in dens.items()]
        out = []
        for m, c in d.terms:
            md = dict(m)
            t = P(c)
            extra = ONE
            for a, e in f_atoms:
                if a.head == 'inv':
                    have = md.pop(a, 0)
                    if e - have:
                        extra = extra * T.power(a.args[0], e - have)
                else:
                    md[a] = md.get(a, 0) + e
                    if md[a] == 0:
                        del md[a]
            r = T.mono_poly(tuple(sorted(md.items(), key=lambda t: t[0].uid)))
            out.append(t * r * extra)
        d = T.add_many(out)
    return d


def slower(k):
    """larger limits for a second attempt"""
    global Z3_TIMEOUT
    Z3_TIMEOUT = int(Z3_TIMEOUT * k)
