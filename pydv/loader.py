"""Loads the real source of /repo/src for symbolic execution.

On every run the files are read from the working tree, parsed, instrumented
(only the constructs that need a symbolic counterpart are rewritten: for-loops
over symbolic sequences, comprehensions, list displays, `is`, string `%`) and
executed as private module objects whose builtins and third-party imports are
the contract shims.  Nothing of the code's logic is rewritten or dropped."""
import ast
import os
import sys
import types
import importlib
import builtins as _b

REPO = os.environ.get('PYDV_REPO', '/repo')


class NonLocals(ast.NodeVisitor):
    """names bound in a statement list (same scope)"""

    def __init__(self):
        self.names = set()
        self.glob = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import

    def visit_Global(self, n):
        self.glob |= set(n.names)
    visit_Nonlocal = visit_Global


def bound_names(stmts):
    v = NonLocals()
    for s in stmts:
        v.visit(s)
    return v.names - v.glob


class BodyJumps(ast.NodeTransformer):
    """continue -> return; break/return -> __pv__.brk() in a loop body moved to
    a nested function"""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_ClassDef(self, n):
        return n

    def visit_For(self, n):
        self.depth += 1
        n.body = [self.visit(s) for s in n.body]
        self.depth -= 1
        n.orelse = [self.visit(s) for s in n.orelse]
        return n
    visit_While = visit_For

    def visit_Continue(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(value=None), n)

    def visit_Break(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Expr(pv('brk')), n)

    def visit_Return(self, n):
        return ast.copy_location(ast.Expr(pv('brk')), n)


def pv(name, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id='__pv__', ctx=ast.Load()), attr=name, ctx=ast.Load()),
                    args=list(args), keywords=[])


def name(id, ctx=None):
    return ast.Name(id=id, ctx=ctx or ast.Load())


def lam(args, body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], vararg=None,
                                         kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=body)


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.infunc = 0
        self.n = 0
        self.self_arg = []

    def visit_FunctionDef(self, n):
        self.infunc += 1
        a = n.args.posonlyargs + n.args.args
        self.self_arg.append(a[0].arg if a else None)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.body = self.block(n.body)
        self.self_arg.pop()
        self.infunc -= 1
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_Lambda(self, n):
        self.infunc += 1
        self.generic_visit(n)
        self.infunc -= 1
        return n

    def visit_ClassDef(self, n):
        save, self.infunc = self.infunc, 0
        self.generic_visit(n)
        self.infunc = save
        return n

    def visit_For(self, n):
        import copy
        if not self.infunc:
            self.generic_visit(n)
            return n
        self.n += 1
        k = self.n
        it, bodyn, xn = '_pv_it%d' % k, '_pv_body%d' % k, '_pv_x%d' % k
        n.iter = self.visit(n.iter)
        n.target = self.visit(n.target)
        body = self.block(n.body)
        orelse = self.block(n.orelse)
        # nested functions / loops already instrumented inside `body`
        names = sorted(x for x in bound_names([ast.Assign(targets=[n.target], value=ast.Constant(value=0))] + body))
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in body for x in ast.walk(s)):
            n.body, n.orelse = body, orelse
            return n
        fbody = copy.deepcopy(body)
        j = BodyJumps()
        fbody = [j.visit(s) for s in fbody]
        nl = [x for x in names]
        fstm = []
        if nl:
            fstm.append(ast.Nonlocal(names=nl))
        fstm.append(ast.Assign(targets=[copy.deepcopy(n.target)], value=name(xn)))
        fstm += fbody
        fdef = ast.FunctionDef(name=bodyn, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=xn)], vararg=None,
                               kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                               body=fstm, decorator_list=[], returns=None, type_comment=None)
        if sys.version_info >= (3, 12):
            fdef.type_params = []
        native = ast.For(target=n.target, iter=name(it), body=body, orelse=orelse, type_comment=None)
        sym = [fdef, ast.Expr(pv('loop', name(it), name(bodyn)))] + copy.deepcopy(orelse)
        stmts = [ast.Assign(targets=[name(it, ast.Store())], value=pv('iter', n.iter)),
                 ast.If(test=pv('is_sym', name(it)), body=sym, orelse=[native])]
        for s in stmts:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return stmts

    def comp(self, n, kind):
        if len(n.generators) != 1 or not self.infunc:
            self.generic_visit(n)
            return n
        g = n.generators[0]
        if not isinstance(g.target, (ast.Name, ast.Tuple)):
            self.generic_visit(n)
            return n
        it = self.visit(g.iter)
        if isinstance(g.target, ast.Name):
            args, unpack = [g.target.id], 0
        else:
            if not all(isinstance(e, ast.Name) for e in g.target.elts):
                # nested tuple targets: leave native
                self.generic_visit(n)
                return n
            args, unpack = [e.id for e in g.target.elts], len(g.target.elts)
        conds = [self.visit(c) for c in g.ifs]
        cond = ast.Constant(value=None)
        if conds:
            c = conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds)
            cond = lam(args, c)
        if kind == 'dict':
            body = ast.Tuple(elts=[self.visit(n.key), self.visit(n.value)], ctx=ast.Load())
        else:
            body = self.visit(n.elt)
        r = pv(kind + 'comp', it, lam(args, body), cond, ast.Constant(value=unpack))
        ast.copy_location(r, n)
        ast.fix_missing_locations(r)
        return r

    def visit_ListComp(self, n):
        return self.comp(n, 'list')

    def visit_GeneratorExp(self, n):
        return self.comp(n, 'gen')

    def visit_DictComp(self, n):
        return self.comp(n, 'dict')

    def visit_SetComp(self, n):
        return self.comp(n, 'set')

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infunc:
            r = pv('plist', n)
            ast.copy_location(r, n)
            ast.fix_missing_locations(r)
            return r
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            r = pv('mod', n.left, n.right)
        elif isinstance(n.op, ast.Mult) and (isinstance(n.left, (ast.List, ast.Call)) or isinstance(n.right, (ast.List, ast.Call))):
            r = pv('mult', n.left, n.right)
        else:
            return n
        ast.copy_location(r, n)
        ast.fix_missing_locations(r)
        return r

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            nm = {ast.Is: 'is_', ast.IsNot: 'is_not', ast.In: 'in_', ast.NotIn: 'not_in'}[type(n.ops[0])]
            r = pv(nm, n.left, n.comparators[0])
            ast.copy_location(r, n)
            ast.fix_missing_locations(r)
            return r
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and self.self_arg and self.self_arg[-1]:
            n.args = [name('__class__'), name(self.self_arg[-1])]
        return n


class Loader:
    """private import system for one symbolic session"""

    def __init__(self, shims, builtins, pvobj, repo=None, extra=()):
        self.root = os.path.join(repo or REPO, 'src')
        self.mods = {}
        self.shims = shims            # name -> module-like
        self.builtins = dict(builtins)
        self.builtins['__import__'] = self.imp
        self.pv = pvobj
        self.sources = {}
        self.overrides = {}           # file relpath -> source text (translations)
        self.translate = {}           # module -> function that makes its text
        self.patches = {}             # module -> {name: replacement} applied on execution

    def find(self, nm):
        p = os.path.join(self.root, *nm.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, nm):
        if nm in self.mods:
            return self.mods[nm]
        if nm in self.shims:
            return self.shims[nm]
        if nm in self.translate and nm not in self.overrides:
            self.overrides[nm] = self.translate[nm]()
        if nm in self.overrides:
            src, path, pkg = self.overrides[nm], '<translated %s>' % nm, False
        else:
            path, pkg = self.find(nm)
            if path is None:
                raise ImportError(nm)
            with open(path) as f:
                src = f.read()
        if '.' in nm:
            self.load(nm.rsplit('.', 1)[0])
            if nm in self.mods:
                return self.mods[nm]
        self.sources[nm] = (path, src)
        m = types.ModuleType(nm)
        m.__file__ = path
        m.__package__ = nm if pkg else nm.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__pv__'] = self.pv
        self.mods[nm] = m
        tree = ast.parse(src, path)
        tree = Instrument().visit(tree)
        ast.fix_missing_locations(tree)
        try:
            exec(compile(tree, path, 'exec'), m.__dict__)
        except BaseException:
            del self.mods[nm]
            raise
        for k, v in self.patches.get(nm, {}).items():
            m.__dict__[k] = v
        if '.' in nm:
            par, _, last = nm.rpartition('.')
            setattr(self.mods[par], last, m)
        return m

    def imp(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__'].split('.')
            base = base[:len(base) - (level - 1)]
            full = '.'.join(base + ([nm] if nm else []))
        else:
            full = nm
        if full.split('.')[0] == 'pyuoi':
            m = self.load(full)
            for f in fromlist or ():
                if not hasattr(m, f) and f != '*':
                    try:
                        self.load(full + '.' + f)
                    except ImportError:
                        pass
            if not fromlist:
                return self.load(full.split('.')[0])
            return m
        top = full.split('.')[0]
        if full in self.shims or top in self.shims:
            m = self.shims.get(full)
            if m is None:
                from .npshim import _NS
                m = self.shims[full] = _NS(full)
            if not fromlist:
                return self.shims[top]
            return m
        return _b.__import__(nm, globals, locals, fromlist, level)
