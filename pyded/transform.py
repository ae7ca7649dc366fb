"""Mechanical instrumentation of the real source of /repo (on every run).

Nothing is dropped: each statement and expression of the module is kept; calls,
operators, subscripts, displays, comprehensions and loops are routed through the
engine's hooks (`_pd_`), which behave natively on concrete values.
"""
import ast, importlib.abc, importlib.machinery, importlib.util, os, sys

PKG_ROOT = os.environ.get('PYDED_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NATIVE_CALLS = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'}
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
          ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|',
          ast.BitXor: '^', ast.MatMult: '@'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
          ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


def pd(name):
    return ast.Attribute(ast.Name('_pd_', ast.Load()), name, ast.Load())


def hook(name, *args):
    return ast.Call(pd(name), list(args), [])


def const(v):
    return ast.Constant(v)


def stored_names(nodes):
    """names (re)bound by these statements in the current scope"""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)
        visit_AsyncFunctionDef = visit_FunctionDef
        visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                nm = (a.asname or a.name).split('.')[0]
                if nm not in out:
                    out.append(nm)
        visit_ImportFrom = visit_Import
    for x in nodes:
        V().visit(x)
    return out


def has_loop_jump(nodes):
    """break/continue belonging to the enclosing loop"""
    class V(ast.NodeVisitor):
        found = False

        def visit_Break(self, n):
            self.found = True
        visit_Continue = visit_Break

        def visit_For(self, n):
            for x in n.orelse:
                self.visit(x)
        visit_While = visit_For

        def visit_FunctionDef(self, n):
            pass
        visit_ClassDef = visit_Lambda = visit_FunctionDef
    v = V()
    for x in nodes:
        v.visit(x)
    return v.found


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.n = 0
        self.scope = []          # 'module' | 'class' | 'func'
        self.qual = []
        self.cls = []

    def uid(self):
        self.n += 1
        return self.n

    def infunc(self):
        return bool(self.scope) and self.scope[-1] == 'func'

    # ---------------------------------------------------------------- scopes
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.visit_args(node.args)
        self.scope.append('func')
        self.qual.append(node.name)
        body = self.stmts(node.body)
        self.qual.pop()
        self.scope.pop()
        pre = []
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        if node.args.vararg:
            v = node.args.vararg.arg
            pre.append(ast.Assign([ast.Name(v, ast.Store())], hook('varargs', ast.Name(v, ast.Load()))))
        if node.args.kwarg:
            v = node.args.kwarg.arg
            pre.append(ast.Assign([ast.Name(v, ast.Store())], hook('kwargs', ast.Name(v, ast.Load()))))
        # enter/exit bookkeeping keeps a call stack for summaries and loop keys
        node.body = doc + pre + (body or [ast.Pass()])
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d else d for d in a.kw_defaults]

    def visit_Lambda(self, node):
        self.visit_args(node.args)
        self.scope.append('func')
        saved, self.pending = self.pending, ()
        node.body = self.visit(node.body)
        self.pending = saved
        self.scope.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id in ('dict', 'list'):
                bases.append(hook('base', b))
            else:
                bases.append(self.visit(b))
        node.bases = bases
        for k in node.keywords:
            k.value = self.visit(k.value)
        self.scope.append('class')
        self.qual.append(node.name)
        self.cls.append(node.name)
        node.body = self.stmts(node.body)
        self.cls.pop()
        self.qual.pop()
        self.scope.pop()
        return node

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Module(self, node):
        node.body = self.stmts(node.body)
        return node

    # ------------------------------------------------------------- statements
    def visit_AugAssign(self, node):
        op = const(BINOPS[type(node.op)])
        t = node.target
        v = self.visit(node.value)
        if isinstance(t, ast.Name):
            return ast.Assign([ast.Name(t.id, ast.Store())], hook('iop', op, ast.Name(t.id, ast.Load()), v))
        if isinstance(t, ast.Attribute):
            return ast.Expr(hook('iattr', op, self.visit(t.value), const(self.mangle(t.attr)), v))
        if isinstance(t, ast.Subscript):
            return ast.Expr(hook('iitem', op, self.visit(t.value), self.index(t.slice), v))
        return self.generic_visit(node)

    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__'):
            if self.cls:
                c = self.cls[-1].lstrip('_')
                return '_%s%s' % (c, name) if c else name
        return name

    def visit_Assign(self, node):
        # subscript stores go through the hook; evaluation order kept by a temporary
        node.value = self.visit(node.value)
        if any(self.has_sub(t) for t in node.targets):
            u = '_pd_t%d' % self.uid()
            out = [ast.Assign([ast.Name(u, ast.Store())], node.value)]
            for t in node.targets:
                out.extend(self.assign(t, ast.Name(u, ast.Load())))
            return out
        if len(node.targets) == 1 and isinstance(node.targets[0], (ast.Tuple, ast.List)):
            return self.assign(node.targets[0], node.value)
        node.targets = [self.store(t) for t in node.targets]
        return node

    def has_sub(self, t):
        return any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for x in ast.walk(t))

    def assign(self, t, value):
        if isinstance(t, ast.Subscript):
            return [ast.Expr(hook('setitem', self.visit(t.value), self.index(t.slice), value))]
        if isinstance(t, (ast.Tuple, ast.List)) and self.has_sub(t) and not any(isinstance(x, ast.Starred) for x in t.elts):
            us = ['_pd_t%d' % self.uid() for _ in t.elts]
            out = [ast.Assign([ast.Tuple([ast.Name(u, ast.Store()) for u in us], ast.Store())],
                              hook('unpack', value, const(len(us))))]
            for x, u in zip(t.elts, us):
                out.extend(self.assign(x, ast.Name(u, ast.Load())))
            return out
        if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
            value = hook('unpack', value, const(len(t.elts)))
        return [ast.Assign([self.store(t)], value)]

    def store(self, t):
        if isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
            return t
        if isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self.store(x) for x in t.elts]
            return t
        if isinstance(t, ast.Starred):
            t.value = self.store(t.value)
            return t
        if isinstance(t, ast.Subscript):
            t.value = self.visit(t.value)
            t.slice = self.visit(t.slice)
            return t
        return t

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(hook('delitem', self.visit(t.value), self.index(t.slice))))
            else:
                out.append(ast.Delete([self.store(t) if not isinstance(t, ast.Name) else t]))
        return out

    def visit_Try(self, node):
        node.body = self.stmts(node.body)
        hs = []
        for h in node.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self.stmts(h.body)
            hs.append(h)
        if hs:
            hs.insert(0, ast.ExceptHandler(pd('EngineSignal'), None, [ast.Raise(None, None)]))
        node.handlers = hs
        node.orelse = self.stmts(node.orelse)
        node.finalbody = self.stmts(node.finalbody)
        return node

    def loop_id(self, node):
        return '%s:%s#%d' % (self.modname, '.'.join(self.qual), self.uid())

    def havoc_block(self, L, names):
        """after L.top(locals()): rebind the loop's locals when the loop is cut"""
        body = []
        for v in names:
            body.append(ast.If(
                ast.Compare(const(v), [ast.In()], [ast.Attribute(ast.Name(L, ast.Load()), 'nl', ast.Load())]),
                [ast.Assign([ast.Name(v, ast.Store())],
                            ast.Subscript(ast.Attribute(ast.Name(L, ast.Load()), 'nl', ast.Load()),
                                          const(v), ast.Load()))],
                [ast.Try([ast.Delete([ast.Name(v, ast.Del())])],
                         [ast.ExceptHandler(ast.Name('NameError', ast.Load()), None, [ast.Pass()])], [], [])]))
        if not body:
            return []
        return [ast.If(ast.Attribute(ast.Name(L, ast.Load()), 'hav', ast.Load()), body, [])]

    def top(self, L, names):
        call = ast.Expr(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'top', ast.Load()),
                                 [ast.Call(ast.Name('locals', ast.Load()), [], [])], []))
        return [call] + self.havoc_block(L, names)

    def visit_For(self, node):
        if has_loop_jump(node.orelse) or not self.infunc():
            node.iter = self.visit(node.iter)
            node.target = self.store(node.target)
            node.body = self.stmts(node.body)
            node.orelse = self.stmts(node.orelse)
            return node
        names = stored_names([node.target] + node.body)
        L = '_pd_L%d' % self.uid()
        lid = self.loop_id(node)
        it = self.visit(node.iter)
        body = self.stmts(node.body)
        orelse = self.stmts(node.orelse)
        value = ast.Attribute(ast.Name(L, ast.Load()), 'value', ast.Load())
        return [
            ast.Assign([ast.Name(L, ast.Store())], hook('for_enter', const(lid), it, ast.Tuple([const(x) for x in names], ast.Load()))),
            ast.While(const(True), self.top(L, names) + [
                ast.If(ast.UnaryOp(ast.Not(), ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'next', ast.Load()), [], [])),
                       orelse + [ast.Break()], []),
            ] + self.assign(node.target, value) + body, [])]

    def visit_While(self, node):
        if has_loop_jump(node.orelse) or not self.infunc():
            return self.generic_visit(node)
        names = stored_names(node.body + [ast.Expr(node.test)])
        L = '_pd_L%d' % self.uid()
        lid = self.loop_id(node)
        test = self.visit(node.test)
        if not isinstance(node.test, ast.Constant):
            test = ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'tested', ast.Load()), [test], [])
        body = self.stmts(node.body)
        orelse = self.stmts(node.orelse)
        return [
            ast.Assign([ast.Name(L, ast.Store())], hook('while_enter', const(lid), ast.Tuple([const(x) for x in names], ast.Load()))),
            ast.While(const(True), self.top(L, names) + [
                ast.If(ast.UnaryOp(ast.Not(), test), orelse + [ast.Break()], []),
            ] + body, [])]

    # ------------------------------------------------------------ expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NATIVE_CALLS:
            node.args = [self.visit(a) for a in node.args]
            return node
        if isinstance(node.func, ast.Name) and node.func.id in ('any', 'all', 'next') and not node.keywords and node.args \
                and isinstance(node.args[0], ast.GeneratorExp) and not any(isinstance(a, ast.Starred) for a in node.args) \
                and self.infunc() and not self.in_lambda_scope() and len(node.args[0].generators) == 1:
            # these stop at the first element that settles the answer
            f = self.visit(node.func)
            return hook('gencall', const(node.func.id), f, *(list(self.gen(node.args[0], node.func.id)) + [self.visit(a) for a in node.args[1:]]))
        f = self.visit(node.func)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                args.append(ast.Starred(hook('star', self.visit(a.value)), ast.Load()))
            else:
                args.append(self.visit(a))
        kws = []
        for k in node.keywords:
            if k.arg is None:
                kws.append(ast.keyword(None, hook('starstar', self.visit(k.value))))
            else:
                kws.append(ast.keyword(k.arg, self.visit(k.value)))
        return ast.Call(pd('call'), [f] + args, kws)

    def visit_BinOp(self, node):
        return hook('binop', const(BINOPS[type(node.op)]), self.visit(node.left), self.visit(node.right))

    def visit_Compare(self, node):
        left = self.visit(node.left)
        rights = [self.visit(c) for c in node.comparators]
        ops = [CMPOPS[type(o)] for o in node.ops]
        if len(ops) == 1:
            return hook('cmp', const(ops[0]), left, rights[0])
        if not self.infunc():
            node.left, node.comparators = left, rights
            return node
        lam = lambda e: ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
        return hook('chain', ast.Tuple([const(o) for o in ops], ast.Load()), left, *[lam(r) for r in rights])

    def index(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(pd('slice'), [self.visit(x) if x else const(None) for x in (s.lower, s.upper, s.step)], [])
        return self.visit(s)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return hook('getitem', self.visit(node.value), self.index(node.slice))
        return self.generic_visit(node)

    def visit_List(self, node):
        if isinstance(node.ctx, ast.Load):
            return hook('mklist', ast.List([self.visit_elt(x) for x in node.elts], ast.Load()))
        return node

    def visit_elt(self, x):
        if isinstance(x, ast.Starred):
            return ast.Starred(hook('star', self.visit(x.value)), ast.Load())
        return self.visit(x)

    def visit_Tuple(self, node):
        if isinstance(node.ctx, ast.Load):
            node.elts = [self.visit_elt(x) for x in node.elts]
        return node

    def visit_Dict(self, node):
        ks = [self.visit(k) if k is not None else None for k in node.keys]
        if any(k is None for k in ks):
            node.keys, node.values = ks, [self.visit(v) for v in node.values]
            return hook('mkdict', node)
        pairs = [ast.Tuple([k, self.visit(v)], ast.Load()) for k, v in zip(ks, node.values)]
        return hook('mkdict', ast.Tuple(pairs, ast.Load()))

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else const('')
                parts.append(hook('fmt', self.visit(v.value), const(v.conversion), spec))
        return hook('fstr', ast.Tuple(parts, ast.Load()))

    # comprehensions become local functions containing ordinary loops
    def comp(self, node, kind):
        if not self.infunc():
            return self.generic_visit(node)
        fn = '_pd_comp%d' % self.uid()
        if kind == 'list':
            acc = ast.Expr(ast.Call(ast.Attribute(ast.Name('_pd_R', ast.Load()), 'append', ast.Load()), [node.elt], []))
            init = ast.List([], ast.Load())
        elif kind == 'dict':
            acc = ast.Assign([ast.Subscript(ast.Name('_pd_R', ast.Load()), node.key, ast.Store())], node.value)
            init = ast.Dict([], [])
        elif kind in ('any', 'all'):
            t = node.elt if kind == 'any' else ast.UnaryOp(ast.Not(), node.elt)
            acc = ast.If(t, [ast.Return(const(kind == 'any'))], [])
        elif kind == 'next':
            acc = ast.Return(ast.Tuple([node.elt], ast.Load()))
        inner = [acc]
        first_iter = node.generators[0].iter
        for gi, g in reversed(list(enumerate(node.generators))):
            for c in reversed(g.ifs):
                inner = [ast.If(c, inner, [])]
            itx = ast.Name('_pd_it', ast.Load()) if gi == 0 else g.iter
            inner = [ast.For(g.target, itx, inner, [])]
        if kind in ('list', 'dict'):
            body = [ast.Assign([ast.Name('_pd_R', ast.Store())], init)] + inner + [ast.Return(ast.Name('_pd_R', ast.Load()))]
        else:
            body = inner + [ast.Return(const({'any': False, 'all': True, 'next': None}[kind]))]
        f = ast.FunctionDef(name=fn, args=ast.arguments([], [ast.arg('_pd_it')], None, [], [], None, []),
                            body=body, decorator_list=[], returns=None, type_params=[])
        self.pending.append(self.visit_FunctionDef(f))
        return ast.Call(ast.Name(fn, ast.Load()), [self.visit(first_iter)], [])

    pending = ()

    def visit(self, node):
        if isinstance(node, ast.stmt) and not isinstance(node, (ast.FunctionDef, ast.ClassDef)) and self.infunc():
            saved, self.pending = self.pending, []
            r = super().visit(node)
            pend, self.pending = self.pending, saved
            if pend:
                rs = r if isinstance(r, list) else [r]
                return pend + rs
            return r
        return super().visit(node)

    def visit_ListComp(self, node):
        if self.in_lambda_scope():
            return self.generic_visit(node)
        return self.comp(node, 'list')

    def visit_DictComp(self, node):
        if self.in_lambda_scope():
            return self.generic_visit(node)
        return self.comp(node, 'dict')

    def visit_SetComp(self, node):
        if self.in_lambda_scope() or not self.infunc():
            return self.generic_visit(node)
        return hook('mkset', self.comp(node, 'list'))

    def visit_Set(self, node):
        if not self.infunc() or any(isinstance(x, ast.Starred) for x in node.elts):
            return self.generic_visit(node)
        return hook('mkset', ast.Tuple([self.visit(x) for x in node.elts], ast.Load()))

    def visit_GeneratorExp(self, node):
        # eager only over symbolic iterables: genexp(native generator thunk, eager function, iterable)
        if not self.infunc() or self.in_lambda_scope() or len(node.generators) != 1:
            return self.generic_visit(node)
        return hook('genexp', *self.gen(node, 'list'))

    def gen(self, node, kind):
        import copy
        node2 = copy.deepcopy(node)
        lc = ast.ListComp(node.elt, node.generators)
        call = self.comp(lc, kind)          # fn(iter)
        fn, itx = call.func, call.args[0]
        # native generator over an argument
        g = node2.generators[0]
        g.iter = ast.Name('_pd_it', ast.Load())
        native = self.generic_visit(node2)
        lam = ast.Lambda(ast.arguments([], [ast.arg('_pd_it')], None, [], [], None, []), native)
        return itx, lam, fn

    def in_lambda_scope(self):
        return not isinstance(self.pending, list)

    def visit_comprehension(self, node):
        node.iter = self.visit(node.iter)
        node.ifs = [self.visit(x) for x in node.ifs]
        return node

    def visit_IfExp(self, node):
        return self.generic_visit(node)


def transform_source(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Tr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = transform_source(src, path, fullname)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        from . import ops
        module.__dict__['_pd_'] = ops
        INSTRUMENTED[module.__name__] = module
        super().exec_module(module)


INSTRUMENTED = {}
SKIP = ('epsilon.test', 'epsilon._version')


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, extra=()):
        self.extra = tuple(extra)

    def find_spec(self, name, path=None, target=None):
        if name.startswith('contracts.') and name != 'contracts.__init__':
            cand = os.path.join(VERIF, name.replace('.', '/') + '.py')
            if os.path.exists(cand):
                return importlib.util.spec_from_file_location(name, cand, loader=Loader(name, cand))
            return None
        if not (name == 'epsilon' or name.startswith('epsilon.')):
            return None
        if any(name == s or name.startswith(s + '.') for s in SKIP):
            return None
        rel = name.replace('.', '/')
        for cand, pkg in ((os.path.join(PKG_ROOT, rel, '__init__.py'), True),
                          (os.path.join(PKG_ROOT, rel + '.py'), False)):
            if os.path.exists(cand):
                return importlib.util.spec_from_file_location(
                    name, cand, loader=Loader(name, cand),
                    submodule_search_locations=[os.path.dirname(cand)] if pkg else None)
        return None


def install():
    sys.dont_write_bytecode = True
    sys.path.insert(0, PKG_ROOT)
    stub_version()
    sys.meta_path.insert(0, Finder())


def install_plain():
    sys.dont_write_bytecode = True
    sys.path.insert(0, PKG_ROOT)
    stub_version()


def stub_version():
    import types
    if not os.path.exists(os.path.join(PKG_ROOT, 'epsilon/_version.py')) or \
            os.path.getsize(os.path.join(PKG_ROOT, 'epsilon/_version.py')) == 0:
        m = types.ModuleType('epsilon._version')
        m.__version__ = '0.0.0'
        sys.modules['epsilon._version'] = m
