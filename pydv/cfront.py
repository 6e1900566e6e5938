"""Mechanical translation of the C and Cython sources to Python text for the verifier, made anew on every run.

liblbfgs/*.c: preprocessed by gcc -E (the system headers are replaced by the few prototypes used), parsed by pycparser, and
printed statement by statement.  An array is a NumPy array, a pointer to a scalar a Cell (field v), a struct an object whose
fields are attributes; a local scalar whose address is taken is a Cell too.  Dropped: casts, const, sizeof in an allocation
(an allocation is a fresh zero array, a list of fresh structs for a struct type, and always succeeds unless the contract says
otherwise) and free.  `for (i = a; i < b; ++i)` is a loop over range(a, b): the translation is refused if i is read after it or
assigned inside.  Integers are mathematical, doubles are reals.

_lowlevel.pyx: the lines are kept; C declarations and casts are dropped, enumerators become module constants, conversions of
typed arguments (int, double) are calls, old-style properties become Python ones and noexcept a wrapper."""
import os
import re
import subprocess
import tempfile

HEADERS = {
    'stdlib.h': 'typedef unsigned long size_t; void *malloc(size_t); void free(void *); double fabs(double);',
    'stdint.h': 'typedef unsigned long uintptr_t; typedef unsigned int uint32_t;',
    'stdio.h': '', 'memory.h': 'void *memset(void *, int, unsigned long); void *memcpy(void *, const void *, unsigned long);',
    'string.h': '', 'math.h': 'double sqrt(double);',
}


class Refused(Exception):
    pass


# what the translated text needs at run time; part of it, so that it is executed like the rest
PROLOGUE = '''
class Cell(object):
    def __init__(self, v=None):
        self.v = v
class Goto(Exception):
    pass
class Struct(object):
    _fields = []
    _cells = []
    def __init__(self, **k):
        for f in self._fields:
            setattr(self, f, Cell(k.get(f)) if f in self._cells else k.get(f))
class _c(object):
    UNDEFINED = Cell
    Cell = Cell
    Goto = Goto
    Struct = Struct
    @staticmethod
    def true(x):
        if x is None:
            return False
        if callable(x):
            return True
        return x != 0
    @staticmethod
    def num(x):
        return 1 if x else 0
    @staticmethod
    def alloc(n):
        return np.zeros(n)
    @staticmethod
    def alloc_structs(cls, n):
        return [cls() for i in range(n)]
    @staticmethod
    def free(x):
        pass
    @staticmethod
    def assign(a, b):
        for f in b._fields:
            if f in b._cells:
                getattr(a, f).v = getattr(b, f).v
            else:
                setattr(a, f, getattr(b, f))
    @staticmethod
    def copy(b):
        a = type(b)()
        _c.assign(a, b)
        return a
'''


def preprocess(path, include):
    with tempfile.TemporaryDirectory() as d:
        for h, text in HEADERS.items():
            with open(os.path.join(d, h), 'w') as f:
                f.write(text + '\n')
        p = subprocess.run(['gcc', '-E', '-P', '-nostdinc', '-U__SSE__', '-U__SSE2__', '-D__inline=', '-I', d, '-I', include, path],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise Refused('gcc -E: ' + p.stderr.decode()[-300:])
    return p.stdout.decode()


class Gen:
    """prints the functions of a translation unit"""

    def __init__(self, text):
        from pycparser import c_parser, c_ast
        self.A = c_ast
        self.tu = c_parser.CParser().parse(text)
        self.structs, self.typedefs, self.enums, self.funcs, self.globals = {}, {}, {}, {}, []
        self.out, self.taken, self.cells, self.scope, self.label, self.globs = [], set(), set(), {}, None, set()
        for e in self.tu.ext:
            self.collect(e)
        self.cellfields = self.find_cellfields()

    # -- declarations
    def collect(self, e):
        A = self.A
        if isinstance(e, A.Typedef):
            inner = e.type.type if isinstance(e.type, A.TypeDecl) else None
            if isinstance(inner, A.Struct) and inner.name is None:
                inner.name = e.name
            self.typedefs[e.name] = e.type
            self.type_decl(e.type)
        elif isinstance(e, A.FuncDef):
            self.funcs[e.decl.name] = e
        elif isinstance(e, A.Decl):
            self.type_decl(e.type)
            if not isinstance(e.type, A.FuncDecl) and e.name:
                self.globals.append(e)

    def type_decl(self, t):
        A = self.A
        while isinstance(t, (A.TypeDecl, A.PtrDecl, A.ArrayDecl)):
            t = t.type
        if isinstance(t, A.Struct) and t.decls:
            self.structs[t.name] = [(d.name, d.type) for d in t.decls]
        if isinstance(t, A.Enum) and t.values:
            v = -1
            for en in t.values.enumerators:
                v = self.const(en.value) if en.value is not None else v + 1
                self.enums[en.name] = v

    def const(self, e):
        A = self.A
        if isinstance(e, A.Constant):
            return int(e.value, 0)
        if isinstance(e, A.UnaryOp) and e.op == '-':
            return -self.const(e.expr)
        if isinstance(e, A.ID):
            return self.enums[e.name]
        raise Refused('enumerator')

    def resolve(self, t):
        """('scalar' | 'struct', name) | ('ptr', pointee) | ('func',)"""
        A = self.A
        if isinstance(t, A.PtrDecl):
            return ('ptr', self.resolve(t.type))
        if isinstance(t, A.FuncDecl):
            return ('func',)
        if isinstance(t, (A.TypeDecl, A.Typename)):
            return self.resolve(t.type)
        if isinstance(t, (A.Struct,)):
            return ('struct', t.name)
        if isinstance(t, A.Enum):
            return ('scalar', 'int')
        if isinstance(t, A.IdentifierType):
            n = t.names[-1]
            if n in self.typedefs:
                return self.resolve(self.typedefs[n])
            return ('void',) if n == 'void' else ('scalar', 'double' if n in ('double', 'float') else 'int')
        raise Refused('type %s' % type(t).__name__)

    def find_cellfields(self):
        A, found = self.A, set()

        class V(A.NodeVisitor):
            def visit_UnaryOp(s, n):
                if n.op == '&' and isinstance(n.expr, A.StructRef):
                    found.add(n.expr.field.name)
                s.generic_visit(n)
        V().visit(self.tu)
        return found

    # -- output
    def line(self, ind, s):
        self.out.append('    ' * ind + s)

    def module(self, skip=()):
        self.line(0, 'import numpy as np')
        self.out += PROLOGUE.splitlines()
        for k, v in self.enums.items():
            self.line(0, '%s = %d' % (k, v))
        for s, fs in self.structs.items():
            self.line(0, 'class %s(Struct):' % s)
            self.line(1, '_fields = %r' % ([n for n, _ in fs],))
            self.line(1, '_cells = %r' % ([n for n, _ in fs if n in self.cellfields],))
        for g in self.globals:
            ty = self.resolve(g.type)
            if ty[0] != 'struct' or not isinstance(g.init, self.A.InitList):
                raise Refused('global %s' % g.name)
            self.scope = {}
            names = [n for n, _ in self.structs[ty[1]]]
            vals = [self.expr(e) for e in g.init.exprs]
            self.line(0, '%s = %s(%s)' % (g.name, ty[1], ', '.join('%s=%s' % z for z in zip(names, vals))))
        done = []
        for name, f in self.funcs.items():
            if name in skip:
                self.line(0, 'def %s(*a):' % name)
                self.line(1, "raise NotImplementedError('%s is not translated')" % name)
                continue
            self.function(f)
            done.append(name)
        return '\n'.join(self.out) + '\n', done

    def function(self, f):
        A = self.A
        name = f.decl.name
        params = [p for p in (f.decl.type.args.params if f.decl.type.args else []) if p.name]
        self.scope, self.cells, taken, assigned = {}, set(), set(), set()
        for p in params:
            self.scope[p.name] = self.resolve(p.type)

        class V(A.NodeVisitor):
            def visit_UnaryOp(s, n):
                if n.op == '&' and isinstance(n.expr, A.ID):
                    taken.add(n.expr.name)
                s.generic_visit(n)
        V().visit(f.body)
        self.taken = taken
        self.globs = {g.name for g in self.globals}
        self.line(0, 'def %s(%s):' % (name, ', '.join(p.name for p in params)))
        for p in params:
            if p.name in taken and self.scope[p.name][0] == 'scalar':
                raise Refused('address of parameter')
        items = f.body.block_items or []
        labels = [i for i, s in enumerate(items) if isinstance(s, A.Label)]
        self.loopvars = set()
        if labels:
            if len(labels) != 1:
                raise Refused('labels')
            k = labels[0]
            self.label = items[k].name
            decls = [s for s in items[:k] if isinstance(s, A.Decl)]
            rest = [s for s in items[:k] if not isinstance(s, A.Decl)]
            # declarations come first in C90 code; later ones would be refused by the scope below
            if any(isinstance(s, A.Decl) for s in items[len(decls):k]) and \
                    [s for s in items[:k] if isinstance(s, A.Decl)] != [s for s in items[:len(decls)]]:
                body, head = items[:k], []
            else:
                body, head = items[:k], []
            self.line(1, 'try:')
            self.block(body, 2)
            self.line(1, 'except _c.Goto:')
            self.line(2, 'pass')
            self.block([items[k].stmt] + items[k + 1:], 1)
        else:
            self.label = None
            self.block(items, 1)
        self.line(0, '')

    def block(self, items, ind):
        n = len(self.out)
        for s in items or []:
            self.stmt(s, ind)
        if len(self.out) == n:
            self.line(ind, 'pass')

    def body(self, s, ind):
        A = self.A
        self.block(s.block_items if isinstance(s, A.Compound) else [s], ind)

    def stmt(self, s, ind):
        A = self.A
        if isinstance(s, A.Decl):
            ty = self.scope[s.name] = self.resolve(s.type)
            init = None if s.init is None else self.expr(s.init)
            if ty[0] == 'struct':
                self.line(ind, '%s = %s' % (s.name, '%s()' % ty[1] if init is None else '_c.copy(%s)' % init))
            elif s.name in self.taken and ty[0] == 'scalar':
                self.line(ind, '%s = _c.Cell(%s)' % (s.name, init or 'None'))
            else:
                self.line(ind, '%s = %s' % (s.name, init or 'None'))
        elif isinstance(s, A.DeclList):
            for d in s.decls:
                self.stmt(d, ind)
        elif isinstance(s, A.Compound):
            self.block(s.block_items, ind)
        elif isinstance(s, A.If):
            self.line(ind, 'if %s:' % self.cond(s.cond))
            self.body(s.iftrue, ind + 1)
            if s.iffalse is not None:
                self.line(ind, 'else:')
                self.body(s.iffalse, ind + 1)
        elif isinstance(s, A.For):
            self.loop(s, ind)
        elif isinstance(s, A.While):
            self.line(ind, 'while %s:' % self.cond(s.cond))
            self.body(s.stmt, ind + 1)
        elif isinstance(s, A.Return):
            self.line(ind, 'return %s' % (self.expr(s.expr) if s.expr is not None else ''))
        elif isinstance(s, A.Break):
            self.line(ind, 'break')
        elif isinstance(s, A.Continue):
            self.line(ind, 'continue')
        elif isinstance(s, A.Goto):
            if s.name != self.label:
                raise Refused('goto')
            self.line(ind, 'raise _c.Goto()')
        elif isinstance(s, A.Switch):
            self.switch(s, ind)
        elif isinstance(s, A.EmptyStatement):
            pass
        elif isinstance(s, A.Assignment):
            self.line(ind, self.assign(s))
        elif isinstance(s, A.UnaryOp) and s.op in ('++', 'p++', '--', 'p--'):
            self.line(ind, '%s %s= 1' % (self.expr(s.expr), '+' if '+' in s.op else '-'))
        elif isinstance(s, A.FuncCall):
            e = self.expr(s)
            if e is not None:
                self.line(ind, e)
        elif isinstance(s, A.Cast):
            self.line(ind, self.expr(s))
        else:
            raise Refused('statement %s' % type(s).__name__)

    def assign(self, s):
        t = self.typeof(s.lvalue)
        if isinstance(s.rvalue, self.A.Assignment):             # a = b = v
            if s.op != '=' or s.rvalue.op != '=':
                raise Refused('nested assignment')
            return '%s; %s = %s' % (self.assign(s.rvalue), self.expr(s.lvalue), self.expr(s.rvalue.lvalue))
        v = self.expr(s.rvalue)
        if t[0] == 'struct':
            v = '_c.copy(%s)' % v
        return '%s %s %s' % (self.expr(s.lvalue), s.op, v)

    def loop(self, s, ind):
        A = self.A
        if s.init is None and s.cond is None and s.next is None:
            self.line(ind, 'while True:')
            self.body(s.stmt, ind + 1)
            return
        i, lo = self.init(s.init)
        ok = isinstance(s.cond, A.BinaryOp) and s.cond.op in ('<', '<=') and isinstance(s.cond.left, A.ID) and s.cond.left.name == i \
            and isinstance(s.next, A.UnaryOp) and s.next.op in ('++', 'p++') and isinstance(s.next.expr, A.ID) and s.next.expr.name == i
        if not ok:
            raise Refused('loop header')
        bound = set()

        class Ids(A.NodeVisitor):
            def visit_ID(v, n):
                bound.add(n.name)
        Ids().visit(s.cond.right)

        class V(A.NodeVisitor):
            def visit_Assignment(v, n):
                if isinstance(n.lvalue, A.ID) and n.lvalue.name in bound | {i}:
                    raise Refused('loop bound or counter assigned in the loop')
                v.generic_visit(n)

            def visit_UnaryOp(v, n):
                if n.op in ('++', 'p++', '--', 'p--', '&') and isinstance(n.expr, A.ID) and n.expr.name in bound | {i}:
                    raise Refused('loop bound or counter assigned in the loop')
                v.generic_visit(n)
        V().visit(s.stmt)
        hi = self.expr(s.cond.right) + (' + 1' if s.cond.op == '<=' else '')
        self.line(ind, 'for %s in range(%s, %s):' % (i, lo, hi))
        self.body(s.stmt, ind + 1)
        # what is left in the counter must not be read
        self.line(ind, '%s = _c.UNDEFINED' % i)

    def init(self, e):
        A = self.A
        if isinstance(e, A.Assignment) and e.op == '=' and isinstance(e.lvalue, A.ID):
            return e.lvalue.name, self.expr(e.rvalue)
        if isinstance(e, A.DeclList) and len(e.decls) == 1:
            d = e.decls[0]
            self.scope[d.name] = self.resolve(d.type)
            return d.name, self.expr(d.init)
        raise Refused('loop start')

    def switch(self, s, ind):
        A = self.A
        key = self.expr(s.cond)
        groups, tests = [], []
        for c in s.stmt.block_items or []:
            if isinstance(c, A.Case):
                tests.append('%s == %s' % (key, self.expr(c.expr)))
            elif isinstance(c, A.Default):
                tests.append('True')
            else:
                raise Refused('switch')
            if c.stmts:
                body = list(c.stmts)
                if isinstance(body[-1], A.Break):
                    body = body[:-1]
                elif not isinstance(body[-1], (A.Return, A.Goto)) and c is not s.stmt.block_items[-1]:
                    raise Refused('fall through')
                groups.append((tests, body))
                tests = []
        first = True
        for ts, body in groups:
            self.line(ind, '%s %s:' % ('if' if first else 'elif', ' or '.join(ts)))
            self.block(body, ind + 1)
            first = False

    # -- expressions
    def cond(self, e):
        A = self.A
        if isinstance(e, A.BinaryOp) and e.op in ('&&', '||'):
            return '(%s %s %s)' % (self.cond(e.left), 'and' if e.op == '&&' else 'or', self.cond(e.right))
        if isinstance(e, A.UnaryOp) and e.op == '!':
            return '(not %s)' % self.cond(e.expr)
        if isinstance(e, A.BinaryOp) and e.op in ('==', '!=', '<', '>', '<=', '>='):
            return self.expr(e)
        if isinstance(e, A.Assignment) and isinstance(e.lvalue, A.ID):
            return '_c.true(%s := %s)' % (e.lvalue.name, self.expr(e.rvalue)) if e.lvalue.name not in self.taken else self.bad('assignment')
        return '_c.true(%s)' % self.expr(e)

    def bad(self, why):
        raise Refused(why)

    def typeof(self, e):
        A = self.A
        if isinstance(e, A.ID):
            return self.scope.get(e.name, ('unknown',))
        if isinstance(e, A.UnaryOp) and e.op == '*':
            t = self.typeof(e.expr)
            return t[1] if t[0] == 'ptr' else ('unknown',)
        if isinstance(e, A.ArrayRef):
            t = self.typeof(e.name)
            return t[1] if t[0] == 'ptr' else ('unknown',)
        if isinstance(e, A.StructRef):
            t = self.typeof(e.name)
            if t[0] == 'ptr':
                t = t[1]
            if t[0] == 'struct':
                for n, ty in self.structs.get(t[1], ()):
                    if n == e.field.name:
                        return self.resolve(ty)
        return ('unknown',)

    def isnull(self, e):
        A = self.A
        while isinstance(e, A.Cast):
            e = e.expr
        return isinstance(e, A.Constant) and e.value == '0' or isinstance(e, A.ID) and e.name == 'NULL'

    def expr(self, e):
        A = self.A
        if isinstance(e, A.Constant):
            return e.value.rstrip('UuLlFf') if e.type != 'string' else e.value
        if isinstance(e, A.ID):
            if e.name == 'NULL':
                return 'None'
            if e.name in self.taken and self.scope.get(e.name, (0,))[0] == 'scalar':
                return e.name + '.v'
            return e.name
        if isinstance(e, A.Cast):
            return self.alloc(e) or ('None' if self.isnull(e) and self.resolve(e.to_type)[0] == 'ptr' else self.expr(e.expr))
        if isinstance(e, A.ArrayRef):
            return '%s[%s]' % (self.expr(e.name), self.expr(e.subscript))
        if isinstance(e, A.StructRef):
            r = '%s.%s' % (self.expr(e.name), e.field.name)
            return r + '.v' if e.field.name in self.cellfields else r
        if isinstance(e, A.UnaryOp):
            if e.op == '*':
                t = self.typeof(e.expr)
                if t[0] != 'ptr':
                    raise Refused('dereference')
                return self.expr(e.expr) + ('.v' if t[1][0] == 'scalar' else '')
            if e.op == '&':
                return self.address(e.expr)
            if e.op in ('-', '+'):
                return '(%s%s)' % (e.op, self.expr(e.expr))
            if e.op == '!':
                return '_c.num(not %s)' % self.cond(e.expr)
            raise Refused('operator ' + e.op)
        if isinstance(e, A.BinaryOp):
            if e.op in ('&&', '||'):
                return '_c.num(%s)' % self.cond(e)
            if e.op in ('==', '!='):
                for a, b in ((e.left, e.right), (e.right, e.left)):
                    if self.isnull(b) and (self.typeof(a)[0] == 'ptr' or not isinstance(b, A.Constant)):
                        return '(%s %s None)' % (self.expr(a), 'is' if e.op == '==' else 'is not')
            if e.op == '/' and self.integer(e.left) and self.integer(e.right):
                raise Refused('integer division')
            if e.op not in ('+', '-', '*', '/', '%', '<', '>', '<=', '>=', '==', '!='):
                raise Refused('operator ' + e.op)
            return '(%s %s %s)' % (self.expr(e.left), e.op, self.expr(e.right))
        if isinstance(e, A.TernaryOp):
            t = self.typeof(e.iftrue)
            if t[0] in ('struct', 'ptr'):
                return '(%s if %s else %s)' % (self.expr(e.iftrue), self.cond(e.cond), self.expr(e.iffalse))
            return '(%s if %s else %s)' % (self.expr(e.iftrue), self.cond(e.cond), self.expr(e.iffalse))
        if isinstance(e, A.FuncCall):
            return self.call(e)
        raise Refused('expression %s' % type(e).__name__)

    def integer(self, e):
        A = self.A
        if isinstance(e, A.Constant):
            return e.type == 'int'
        if isinstance(e, A.UnaryOp):
            return self.integer(e.expr)
        if isinstance(e, A.BinaryOp):
            return self.integer(e.left) and self.integer(e.right)
        return self.typeof(e) == ('scalar', 'int')

    def address(self, e):
        A = self.A
        if isinstance(e, A.ID):
            return e.name                               # a Cell or a struct
        if isinstance(e, A.StructRef):
            return '%s.%s' % (self.expr(e.name), e.field.name)
        if isinstance(e, A.ArrayRef):
            if self.typeof(e)[0] == 'struct':
                return self.expr(e)
        raise Refused('address')

    def alloc(self, e):
        """(T *)vecalloc(count * sizeof(T)), (T *)malloc(...)"""
        A = self.A
        c = e.expr
        if not (isinstance(c, A.FuncCall) and isinstance(c.name, A.ID) and c.name.name in ('vecalloc', 'malloc')):
            return None
        s = c.args.exprs[0]
        if not (isinstance(s, A.BinaryOp) and s.op == '*'):
            raise Refused('allocation size')
        n, z = s.left, s.right
        if isinstance(n, A.UnaryOp) and n.op == 'sizeof':
            n, z = z, n
        if not (isinstance(z, A.UnaryOp) and z.op == 'sizeof'):
            raise Refused('allocation size')
        ty, of = self.resolve(e.to_type), self.resolve(z.expr.type) if isinstance(z.expr, A.Typename) else self.typeof(z.expr)
        if ty[0] != 'ptr' or ty[1] != of:
            raise Refused('allocation of another type')
        if of[0] == 'struct':
            return '_c.alloc_structs(%s, %s)' % (of[1], self.expr(n))
        return '_c.alloc(%s)' % self.expr(n)

    def call(self, e):
        A = self.A
        f = e.name.name if isinstance(e.name, A.ID) else None
        exprs = e.args.exprs if e.args else []
        if f == 'memcpy':
            z = exprs.pop()
            if not (isinstance(z, A.UnaryOp) and z.op == 'sizeof'):
                raise Refused('memcpy')
        args = [self.expr(a) if not (isinstance(a, A.UnaryOp) and a.op == '&') else self.address(a.expr) for a in exprs]
        if f == 'fabs':
            return 'abs(%s)' % args[0]
        if f == 'sqrt':
            return 'np.sqrt(%s)' % args[0]
        if f == 'memcpy':
            return '_c.assign(%s, %s)' % (args[0], args[1])
        if f in ('free', 'vecfree'):
            return '_c.free(%s)' % args[0]
        if f in ('malloc', 'memset', 'vecalloc'):
            raise Refused(f)
        return '%s(%s)' % (self.expr(e.name), ', '.join(args))


# functions that allocate or free without a type, and those outside the subset
C_SKIP = ('vecalloc', 'vecfree', 'round_out_variables')


def translate_c(repo, skip=()):
    inc = os.path.join(repo, 'liblbfgs')
    g = Gen(preprocess(os.path.join(inc, 'lbfgs.c'), inc))
    text, done = g.module(skip=tuple(skip) + C_SKIP)
    return text, done, g


MODULE_C = 'pyuoi.lbfgs._liblbfgs'
MODULE_X = 'pyuoi.lbfgs._lowlevel_text'

X_PROLOGUE = '''
from ._liblbfgs import lbfgs, lbfgs_parameter_init, lbfgs_parameter_t, lbfgs_malloc, lbfgs_free
def _c_int(v):
    if isinstance(v, float):
        raise TypeError('an integer is required')
    return int(v)
def _c_double(v):
    return float(v)
def _view(n, shape, kind, x):
    return x[:shape[0]]
def _returns(conv):
    def wrap(f):
        def run(*a):
            return conv(f(*a))
        return run
    return wrap
'''
CONV = {'int': '_c_int', 'double': '_c_double', 'lbfgsfloatval_t': '_c_double'}


def translate_pyx(repo):
    """_lowlevel.pyx as Python text, line by line"""
    with open(os.path.join(repo, 'src', 'pyuoi', 'lbfgs', '_lowlevel.pyx')) as f:
        src = f.read().split('\n')
    out = [x for x in X_PROLOGUE.split('\n')]
    structs = []
    i, n = 0, len(src)

    def indent(s):
        return len(s) - len(s.lstrip())

    def joined(i):
        """a header that may go over several lines"""
        text, j = src[i], i
        while text.count('(') > text.count(')') or not text.split('#')[0].rstrip().endswith(':'):
            j += 1
            text += ' ' + src[j].strip()
        return text, j

    def args(text):
        """-> names and the conversions of typed arguments"""
        names, conv = [], []
        depth, cur, parts = 0, '', []
        for ch in text:
            if ch in '([{':
                depth += 1
            if ch in ')]}':
                depth -= 1
            if ch == ',' and depth == 0:
                parts.append(cur)
                cur = ''
            else:
                cur += ch
        if cur.strip():
            parts.append(cur)
        for a in parts:
            a = a.strip()
            m = re.match(r'^(?:const\s+)?([A-Za-z_][\w.]*)\s*(\*+\s*|\s)([A-Za-z_]\w*)\s*(=.*)?$', a)
            if m and m.group(1) != 'lambda':
                nm = m.group(3)
                names.append(nm + (m.group(4) or ''))
                if '*' not in m.group(2) and m.group(1) in CONV:
                    conv.append((nm, CONV[m.group(1)]))
            else:
                names.append(a)
        return names, conv

    def expr(s):
        s = re.sub(r'<\s*[A-Za-z_][\w.]*\s*\**\s*>', '', s)
        s = re.sub(r'(?<![\w&)\]])&\s*(?=[A-Za-z_])', '', s)
        s = re.sub(r'\bNULL\b', 'None', s)
        s = re.sub(r'\bxrange\b', 'range', s)
        s = s.replace('np.PyArray_SimpleNewFromData', '_view').replace('np.NPY_DOUBLE', 'None')
        return s

    prop = None                     # (name, indentation)
    pending = []                    # lines to put at the start of the next body
    inits = None                    # struct members of the current class
    while i < n:
        line = src[i]
        st, ind = line.strip(), indent(line)
        pad = ' ' * ind
        if re.match(r'^(cimport\b|from\s+\S+\s+cimport\b)', st) or st.startswith('np.import_array('):
            i += 1
            continue
        if re.match(r'^(ctypedef|cdef)\s+enum\b', st):
            text, j = joined(i)
            body, k = [], j + 1
            while k < n and (not src[k].strip() or indent(src[k]) > ind):
                body.append(src[k].split('#')[0])
                k += 1
            v = '-1'
            for item in ' '.join(body).replace('\n', ' ').split(','):
                item = item.strip()
                if not item:
                    continue
                for it in item.split():
                    pass
                nm, _, val = item.partition('=')
                out.append('%s%s = %s' % (pad, nm.strip(), val.strip() or '(%s) + 1' % v))
                v = nm.strip()
            i = k
            continue
        if st.startswith('cdef extern'):
            k = i + 1
            while k < n and (not src[k].strip() or indent(src[k]) > ind):
                k += 1
            i = k
            continue
        if re.match(r'^(cdef\s+)?class\b', st):
            out.append(pad + re.sub(r'^cdef\s+', '', st))
            inits = []
            i += 1
            continue
        m = re.match(r'^property\s+(\w+)\s*:', st)
        if m:
            prop = (m.group(1), ind)
            i += 1
            continue
        if prop and st and ind <= prop[1]:
            prop = None
        if re.match(r'^(cdef|cpdef|def)\b.*\(', st) and not re.match(r'^cdef\s+[\w.]+\s*\**\s*\w+\s*=', st):
            text, j = joined(i)
            text = text.strip()
            m = re.match(r'^(?:cdef|cpdef|def)\s+(?:inline\s+)?(?:([\w.]+)\s*(\**)\s+|([\w.]+)\s*(\*+)\s*)?(\w+)\s*\((.*)\)\s*([^()]*):\s*(#.*)?$', text)
            if not m:
                raise Refused('header: ' + text[:80])
            ret, star, nm = m.group(1) or m.group(3), m.group(2) or m.group(4), m.group(5)
            names, conv = args(m.group(6))
            if prop:
                pad = ' ' * prop[1]
                if nm == '__get__':
                    out.append(pad + '@property')
                elif nm == '__set__':
                    out.append(pad + '@%s.setter' % prop[0])
                else:
                    raise Refused('property ' + nm)
                nm = prop[0]
            if not star and ret in CONV and text.startswith('c'):
                out.append('%s@_returns(%s)' % (pad, CONV[ret]))
            out.append('%sdef %s(%s):' % (pad, nm, ', '.join(names)))
            b = pad + '    '
            if prop:
                shift = ind - prop[1]
            for a, c in conv if text.startswith('def') else ():
                out.append('%s%s = %s(%s)' % (b, a, c, a))
            if nm == '__init__':
                for a, c in inits or []:
                    out.append('%sself.%s = %s()' % (b, a, c))
            i = j + 1
            continue
        if st.startswith('cdef '):
            rest = st[5:]
            m = re.match(r'^([\w.]+)\s*(\**)\s*(\w+)\s*(?:\[(\w+)\])?\s*(?:=\s*(.*))?$', rest)
            if not m:
                raise Refused('declaration: ' + st[:80])
            ty, star, nm, dim, val = m.groups()
            if ty.endswith('parameter_t') and not star:
                if inits is None:
                    raise Refused('struct outside a class')
                inits.append((nm, ty))
            elif dim:
                out.append('%s%s = [0] * %s' % (pad, nm, dim))
            elif val is not None:
                out.append('%s%s = %s' % (pad, nm, expr(val)))
            i += 1
            continue
        if prop and st:
            line = line[4:]
        if st and ind == 0:
            inits = None if not st.startswith(('def', 'class')) else inits
        out.append(expr(line) if not st.startswith(('#',)) else line)
        i += 1
    return '\n'.join(out) + '\n'


def main():
    import sys
    name, repo = (sys.argv[1:] + ['pyuoi.lbfgs._liblbfgs', '/repo'][len(sys.argv) - 1:])[:2]
    print(TEXTS[name](repo))


TEXTS = {MODULE_C: lambda repo: translate_c(repo)[0], MODULE_X: translate_pyx}


if __name__ == '__main__':
    main()
