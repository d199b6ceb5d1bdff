"""Mechanical instrumentation of /repo's Python source.

Every statement and expression of the original is kept; only operator/loop/call sites
are routed through hooks (rt.*) that behave exactly as CPython does on ordinary values.
Dropped: type annotations evaluated at run time (annotations are left as they are),
docstrings are kept.  Loops inside generator functions are left native.
"""
from __future__ import annotations
import ast, builtins, importlib.abc, importlib.machinery, importlib.util, os, sys

H = '__vf__'
NOCALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec'}


def assigned_names(nodes):
    """Names bound by these statements in their own scope (not nested scopes)."""
    out = []

    class V(ast.NodeVisitor):
        def add(self, n):
            if n not in out:
                out.append(n)

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                self.add(n.id)

        def visit_FunctionDef(self, n):
            self.add(n.name)
            for d in n.decorator_list: self.visit(d)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            self.add(n.name)

        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): self._comp(n)
        def visit_SetComp(self, n): self._comp(n)
        def visit_DictComp(self, n): self._comp(n)
        def visit_GeneratorExp(self, n): self._comp(n)

        def _comp(self, n):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.add(x.target.id)

        def visit_ExceptHandler(self, n):
            if n.name: self.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names: self.add((a.asname or a.name).split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names: self.add(a.asname or a.name)

        def visit_MatchAs(self, n):
            if n.name: self.add(n.name)
            self.generic_visit(n)

        def visit_MatchStar(self, n):
            if n.name: self.add(n.name)
    v = V()
    for n in nodes:
        v.visit(n)
    return out


def has_yield(fn):
    class V(ast.NodeVisitor):
        found = False
        def visit_Yield(self, n): self.found = True
        visit_YieldFrom = visit_Yield
        visit_Await = visit_Yield
        def visit_FunctionDef(self, n): pass
        visit_AsyncFunctionDef = visit_FunctionDef
        visit_Lambda = visit_FunctionDef
        visit_ClassDef = visit_FunctionDef
    v = V()
    for s in fn.body:
        v.visit(s)
    return v.found


def uses_await_or_yield(nodes):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.AsyncFor, ast.AsyncWith)) for n in nodes for x in ast.walk(n))


def load(id): return ast.Name(id=id, ctx=ast.Load())
def store(id): return ast.Name(id=id, ctx=ast.Store())
def hook(name): return ast.Attribute(value=load(H), attr=name, ctx=ast.Load())
def call(name, *args): return ast.Call(func=hook(name), args=list(args), keywords=[])
def const(v): return ast.Constant(value=v)


def argspec(*names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


class Scope:
    def __init__(self, kind, node=None):
        self.kind = kind            # 'module' | 'class' | 'function'
        self.node = node
        self.globals = set()
        self.nonlocals = set()
        self.loopvars = []          # names to pre-bind for nonlocal
        self.first = None
        self.gen = False
        self.params = set()


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scopes = [Scope('module')]
        self.n = 0
        self.loop_depth = []   # stack: inside loop body closures: list of dict(has break etc.)
        self.qual = []

    def uid(self):
        self.n += 1
        return self.n

    @property
    def sc(self): return self.scopes[-1]

    # ---- functions
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d else None for d in a.kw_defaults]
        s = Scope('function', node)
        allargs = a.posonlyargs + a.args
        s.first = allargs[0].arg if allargs else None
        s.params = {x.arg for x in allargs + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        s.gen = has_yield(node) or isinstance(node, ast.AsyncFunctionDef)
        for st in ast.walk(node):
            pass

        class G(ast.NodeVisitor):
            def visit_Global(self, n): s.globals.update(n.names)
            def visit_Nonlocal(self, n): s.nonlocals.update(n.names)
            def visit_FunctionDef(self, n): pass
            visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef
        g = G()
        for st in node.body:
            g.visit(st)
        self.scopes.append(s)
        saved, self.loop_depth = self.loop_depth, []
        self.qual.append(node.name)
        body = self.body(node.body)
        self.qual.pop()
        self.loop_depth = saved
        self.scopes.pop()
        pre = [n for n in dict.fromkeys(s.loopvars) if n not in s.params and n not in s.globals and n not in s.nonlocals]
        if pre:
            dead = ast.If(test=const(False), body=[ast.Assign(targets=[store(n) for n in pre], value=const(None))], orelse=[])
            k = 0
            while k < len(body) and ((isinstance(body[k], ast.Expr) and isinstance(body[k].value, ast.Constant)) or isinstance(body[k], (ast.Global, ast.Nonlocal))):
                k += 1
            body.insert(k, dead)
        node.body = body
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        s = Scope('function', node)
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d else None for d in a.kw_defaults]
        s.first = a.args[0].arg if a.args else None
        s.gen = False
        self.scopes.append(s)
        saved, self.loop_depth = self.loop_depth, []
        node.body = self.visit(node.body)
        self.loop_depth = saved
        self.scopes.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        self.scopes.append(Scope('class', node))
        saved, self.loop_depth = self.loop_depth, []
        self.qual.append(node.name)
        node.body = self.body(node.body)
        self.qual.pop()
        self.loop_depth = saved
        self.scopes.pop()
        return node

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out or [ast.Pass()]

    def generic_stmt_lists(self, node, *fields):
        for f in fields:
            v = getattr(node, f, None)
            if v:
                setattr(node, f, self.body(v))

    def visit_If(self, n):
        n.test = self.visit(n.test)
        self.generic_stmt_lists(n, 'body', 'orelse')
        return n

    def visit_With(self, n):
        for it in n.items:
            it.context_expr = self.visit(it.context_expr)
            if it.optional_vars is not None:
                it.optional_vars = self.visit(it.optional_vars)
        n.body = self.body(n.body)
        return n
    visit_AsyncWith = visit_With

    def visit_Try(self, n):
        n.body = self.body(n.body)
        for h in n.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self.body(h.body)
        if n.handlers:
            n.handlers.insert(0, ast.ExceptHandler(type=hook('Control'), name=None, body=[ast.Raise()]))
        self.generic_stmt_lists(n, 'orelse', 'finalbody')
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        if isinstance(n.target, ast.Attribute):
            # self.x: T = v   ->  hooked attribute store
            if n.value is None:
                return n
            return self.visit_Assign(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n), visited=True)
        if isinstance(n.target, ast.Subscript):
            n.target = self.visit(n.target)
        if isinstance(n.target, ast.Name) and self.sc.kind == 'function':
            if n.value is None:
                return ast.Pass()
            return ast.Assign(targets=[n.target], value=n.value)
        return n

    def visit_Assign(self, n, visited=False):
        if not visited:
            n.value = self.visit(n.value)
        if any(isinstance(t, ast.Attribute) for t in n.targets) or any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for t in n.targets for x in ast.walk(t)):
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
                t = n.targets[0]
                # evaluate value first, then the object (CPython order)
                v = self.tmp()
                return [ast.Assign(targets=[store(v)], value=n.value),
                        ast.Expr(call('setattr_', self.visit(t.value), const(self.mangle(t.attr)), load(v)))]
            # general: assign to temporaries through tuple
            out = []
            v = self.tmp()
            out.append(ast.Assign(targets=[store(v)], value=n.value))
            for t in n.targets:
                if isinstance(t, ast.Attribute):
                    out.append(ast.Expr(call('setattr_', self.visit(t.value), const(self.mangle(t.attr)), load(v))))
                elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(e, ast.Attribute) for e in t.elts):
                    tmps = []
                    post = []
                    elts = []
                    for e in t.elts:
                        if isinstance(e, ast.Attribute):
                            w = self.tmp()
                            elts.append(store(w))
                            post.append(ast.Expr(call('setattr_', self.visit(e.value), const(self.mangle(e.attr)), load(w))))
                        else:
                            elts.append(self.visit(e))
                    out.append(ast.Assign(targets=[ast.Tuple(elts=elts, ctx=ast.Store())], value=load(v)))
                    out += post
                else:
                    out.append(ast.Assign(targets=[self.visit(t)], value=load(v)))
            return out
        n.targets = [self.visit(t) for t in n.targets]
        return n

    def mangle(self, attr):
        if attr.startswith('__') and not attr.endswith('__'):
            for s in reversed(self.scopes):
                if s.kind == 'class':
                    return f'_{s.node.name.lstrip("_")}{attr}'
        return attr

    def tmp(self):
        return f'__vf_t{self.uid()}'

    def visit_AugAssign(self, n):
        op = type(n.op).__name__
        v = self.visit(n.value)
        if isinstance(n.target, ast.Name):
            return ast.Assign(targets=[store(n.target.id)], value=call('iop', const(op), load(n.target.id), v))
        if isinstance(n.target, ast.Attribute):
            o = self.tmp()
            return [ast.Assign(targets=[store(o)], value=self.visit(n.target.value)),
                    ast.Expr(call('setattr_', load(o), const(self.mangle(n.target.attr)),
                                  call('iop', const(op), ast.Attribute(value=load(o), attr=n.target.attr, ctx=ast.Load()), v)))]
        if isinstance(n.target, ast.Subscript):
            o, i = self.tmp(), self.tmp()
            return [ast.Assign(targets=[store(o)], value=self.visit(n.target.value)),
                    ast.Assign(targets=[store(i)], value=self.slice_value(n.target.slice)),
                    ast.Expr(call('setitem', load(o), load(i), call('iop', const(op), call('getitem', load(o), load(i)), v)))]
        return n

    def slice_value(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.visit(x) if x is not None else const(None)
            return call('mkslice', f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple(elts=[self.slice_value(e) for e in s.elts], ctx=ast.Load())
        return self.visit(s)

    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(call('delitem', self.visit(t.value), self.slice_value(t.slice))))
            elif isinstance(t, ast.Attribute):
                out.append(ast.Expr(call('delattr_', self.visit(t.value), const(self.mangle(t.attr)))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    # ---- expressions
    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load):
            return call('getitem', self.visit(n.value), self.slice_value(n.slice))
        n.value = self.visit(n.value)
        n.slice = self.visit(n.slice)
        if isinstance(n.ctx, ast.Store):
            pass
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name):
            if n.func.id == 'super' and not n.args and self.in_loop_body() and self.sc.first:
                return ast.Call(func=n.func, args=[load('__class__'), load(self.fn_scope().first)], keywords=[])
            if n.func.id in NOCALL:
                n.args = [self.visit(a) for a in n.args]
                return n
        f = self.visit(n.func)
        args = [ast.Starred(value=call('star', self.visit(a.value)), ctx=ast.Load()) if isinstance(a, ast.Starred) else self.visit(a) for a in n.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value) if k.arg else call('dstar', self.visit(k.value))) for k in n.keywords]
        return ast.Call(func=hook('call'), args=[f] + args, keywords=kws)

    def fn_scope(self):
        for s in reversed(self.scopes):
            if s.kind == 'function':
                return s

    def in_loop_body(self):
        return bool(self.loop_depth)

    def visit_Compare(self, n):
        left = self.visit(n.left)
        comps = [self.visit(c) for c in n.comparators]
        if len(n.ops) == 1:
            op = type(n.ops[0]).__name__
            if op in ('In', 'NotIn', 'Is', 'IsNot', 'Eq', 'NotEq'):
                return call('cmp', const(op), left, comps[0])
            return ast.Compare(left=left, ops=n.ops, comparators=comps)
        # chained: a < b < c -> bind operands once
        names = [self.tmp() for _ in comps]
        terms = []
        prev = left
        for op, c, nm in zip(n.ops, comps, names):
            w = ast.NamedExpr(target=store(nm), value=c)
            o = type(op).__name__
            if o in ('In', 'NotIn', 'Is', 'IsNot', 'Eq', 'NotEq'):
                terms.append(call('cmp', const(o), prev, w))
            else:
                terms.append(ast.Compare(left=prev, ops=[op], comparators=[w]))
            prev = load(nm)
        if self.sc.kind == 'class':
            return ast.Compare(left=left, ops=n.ops, comparators=comps)
        return ast.BoolOp(op=ast.And(), values=terms)

    def visit_UnaryOp(self, n):
        n.operand = self.visit(n.operand)
        if isinstance(n.op, ast.Not):
            return call('not_', n.operand)
        return n

    def visit_BinOp(self, n):
        l, r = self.visit(n.left), self.visit(n.right)
        if isinstance(n.op, (ast.Add, ast.Mult, ast.Mod)):
            return call('binop', const(type(n.op).__name__), l, r)
        return ast.BinOp(left=l, op=n.op, right=r)

    def visit_List(self, n):
        if not isinstance(n.ctx, ast.Load):
            n.elts = [self.visit(e) for e in n.elts]
            return n
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return call('list_star', self.starparts(n.elts))
        return call('list_', ast.List(elts=[self.visit(e) for e in n.elts], ctx=ast.Load()))

    def starparts(self, elts):
        """[(starred?, value), ...] as a native tuple"""
        return ast.Tuple(elts=[ast.Tuple(elts=[const(isinstance(e, ast.Starred)), self.visit(e.value if isinstance(e, ast.Starred) else e)], ctx=ast.Load()) for e in elts], ctx=ast.Load())

    def visit_Tuple(self, n):
        if isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            return call('tuple_star', self.starparts(n.elts))
        n.elts = [self.visit(e) for e in n.elts]
        return n

    def visit_Starred(self, n):
        n.value = self.visit(n.value)
        return n

    def visit_Set(self, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return call('set_', call('list_star', self.starparts(n.elts)))
        return call('set_', ast.List(elts=[self.visit(e) for e in n.elts], ctx=ast.Load()))

    def visit_Dict(self, n):
        items = []
        for k, v in zip(n.keys, n.values):
            items.append(ast.Tuple(elts=[const(k is None), self.visit(k) if k is not None else const(None), self.visit(v)], ctx=ast.Load()))
        return call('dict_', ast.Tuple(elts=items, ctx=ast.Load()))

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else const('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), const(v.conversion), spec], ctx=ast.Load()))
        return call('fstr', ast.Tuple(elts=parts, ctx=ast.Load()))

    # comprehensions
    def comp(self, n, kind):
        if any(g.is_async for g in n.generators) or self.sc.kind == 'class' or \
           any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)):
            self.generic_visit(n)
            return self.wrap_native(n, kind)
        return self.comp_rec(n, kind, 0)

    def wrap_native(self, n, kind):
        if kind == 'list': return call('list_', n)
        if kind == 'set': return call('set_', n)
        if kind == 'dict': return call('dict_native', n)
        return n

    def target_lambda(self, target, expr, pre=None):
        """function of one argument binding target; expr already transformed."""
        a = f'__vf_e{self.uid()}'
        if isinstance(target, ast.Name):
            return ast.Lambda(args=argspec(target.id), body=expr)

        def bind(t, val, body):
            if isinstance(t, ast.Name):
                return ast.Call(func=ast.Lambda(args=argspec(t.id), body=body), args=[val], keywords=[])
            if isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts):
                return ast.Call(func=ast.Lambda(args=argspec(*[e.id for e in t.elts]), body=body),
                                args=[ast.Starred(value=call('unpack', val, const(len(t.elts))), ctx=ast.Load())], keywords=[])
            if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts):
                names = [f'__vf_u{self.uid()}' for _ in t.elts]
                inner = body
                for e, nm in reversed(list(zip(t.elts, names))):
                    inner = bind(e, load(nm), inner)
                return ast.Call(func=ast.Lambda(args=argspec(*names), body=inner),
                                args=[ast.Starred(value=call('unpack', val, const(len(t.elts))), ctx=ast.Load())], keywords=[])
            raise NotImplementedError
        return ast.Lambda(args=argspec(a), body=bind(target, load(a), expr))

    def comp_rec(self, n, kind, gi):
        g = n.generators[gi]
        it = self.visit(g.iter)
        conds = g.ifs
        saved, self.loop_depth = self.loop_depth, []
        self.scopes.append(Scope('function', None))
        if gi + 1 < len(n.generators):
            elt = self.comp_rec(n, 'list' if kind != 'dict' else 'pairs', gi + 1)
            flat = True
        else:
            flat = False
            if kind in ('dict', 'pairs'):
                elt = ast.Tuple(elts=[self.visit(n.key), self.visit(n.value)], ctx=ast.Load())
            else:
                elt = self.visit(n.elt)
        if conds:
            c = self.visit(conds[0]) if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=[self.visit(x) for x in conds])
        else:
            c = None
        self.scopes.pop()
        self.loop_depth = saved
        try:
            f = self.target_lambda(g.target, elt)
            import copy
            cf = self.target_lambda(copy.deepcopy(g.target), c) if c is not None else const(None)
        except NotImplementedError:
            raise SyntaxError('comprehension target')
        inner = kind if gi == 0 else kind
        return call('comp', const(kind), it, f, cf, const(flat))

    def visit_ListComp(self, n): return self.comp(n, 'list')
    def visit_SetComp(self, n): return self.comp(n, 'set')
    def visit_DictComp(self, n): return self.comp(n, 'dict')
    def visit_GeneratorExp(self, n): return self.comp(n, 'gen')

    # ---- loops
    def loop_native(self):
        return self.sc.kind != 'function' or self.sc.gen or self.sc.node is None

    def visit_For(self, n):
        if self.loop_native() or uses_await_or_yield(n.body + n.orelse):
            n.iter = self.visit(n.iter)
            if not self.loop_native():
                pass
            # native loop: nested closures are not introduced, so break/continue stay native
            self.loop_depth.append('native')
            n.body = self.body(n.body)
            self.loop_depth.pop()
            self.generic_stmt_lists(n, 'orelse')
            n.target = self.visit(n.target)
            return n
        i = self.uid()
        names = assigned_names(n.body + [n.target])
        it = self.visit(n.iter)
        self.loop_depth.append('closure')
        body = self.body(n.body)
        tgt = self.visit(n.target)
        self.loop_depth.pop()
        more = assigned_names(body)
        names = list(dict.fromkeys(names + more))
        self.sc.loopvars += names
        ex = [ast.Assign(targets=[tgt], value=load(f'__vf_e{i}'))] + body
        return self.emit_loop(i, n, 'for_', it, ex, names, f'__vf_e{i}')

    def decls(self, names):
        gl = [x for x in names if x in self.sc.globals]
        nl = [x for x in names if x not in self.sc.globals]
        out = []
        if gl: out.append(ast.Global(names=gl))
        if nl: out.append(ast.Nonlocal(names=nl))
        return out

    def emit_loop(self, i, n, kind, it, ex, names, arg):
        fn = ast.FunctionDef(name=f'__vf_body{i}', args=argspec(arg) if arg else argspec(), body=self.decls(names) + ex,
                             decorator_list=[], returns=None, type_params=[])
        getb = []
        # snapshot of assigned locals
        getb.append(ast.Assign(targets=[store('__vf_d')], value=ast.Dict(keys=[], values=[])))
        for x in names:
            getb.append(ast.Try(body=[ast.Assign(targets=[ast.Subscript(value=load('__vf_d'), slice=const(x), ctx=ast.Store())], value=load(x))],
                                handlers=[ast.ExceptHandler(type=load('NameError'), name=None, body=[ast.Pass()])], orelse=[], finalbody=[]))
        getb.append(ast.Return(value=load('__vf_d')))
        getf = ast.FunctionDef(name=f'__vf_get{i}', args=argspec(), body=getb, decorator_list=[], returns=None, type_params=[])
        setb = self.decls(names)
        for x in names:
            setb.append(ast.If(test=ast.Compare(left=const(x), ops=[ast.In()], comparators=[load('__vf_d')]),
                               body=[ast.Assign(targets=[store(x)], value=ast.Subscript(value=load('__vf_d'), slice=const(x), ctx=ast.Load()))], orelse=[]))
        setf = ast.FunctionDef(name=f'__vf_set{i}', args=argspec('__vf_d'), body=setb or [ast.Pass()], decorator_list=[], returns=None, type_params=[])
        r = f'__vf_r{i}'
        info = const(f'{self.modname}:{".".join(self.qual)}:{n.lineno}')
        c = ast.Assign(targets=[store(r)], value=call(kind, it, load(f'__vf_body{i}'), load(f'__vf_get{i}'), load(f'__vf_set{i}'), info))
        out = [fn, getf, setf, c]
        if 'closure' in self.loop_depth:
            ret = ast.Return(value=load(r))
        else:
            ret = ast.Return(value=ast.Subscript(value=load(r), slice=const(1), ctx=ast.Load()))
        out.append(ast.If(test=call('is_return', load(r)), body=[ret], orelse=[]))
        if n.orelse:
            out.append(ast.If(test=call('not_broken', load(r)), body=self.body(n.orelse), orelse=[]))
        return out

    def visit_While(self, n):
        if self.loop_native() or uses_await_or_yield(n.body + n.orelse) or any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
            n.test = self.visit(n.test)
            self.loop_depth.append('native')
            n.body = self.body(n.body)
            self.loop_depth.pop()
            self.generic_stmt_lists(n, 'orelse')
            return n
        i = self.uid()
        test = self.visit(n.test)
        self.loop_depth.append('closure')
        body = self.body(n.body)
        self.loop_depth.pop()
        names = list(dict.fromkeys(assigned_names(n.body) + assigned_names(body)))
        self.sc.loopvars += names
        cond = ast.Lambda(args=argspec(), body=test)
        return self.emit_loop(i, n, 'while_', cond, body, names, None)

    visit_AsyncFor = visit_For

    # return/break/continue inside loop closures
    def visit_Return(self, n):
        v = self.visit(n.value) if n.value is not None else const(None)
        if 'closure' in self.loop_depth:
            return ast.Return(value=ast.Tuple(elts=[const('R'), v], ctx=ast.Load()))
        n.value = v if n.value is not None else None
        return n

    def visit_Break(self, n):
        if self.loop_depth and self.loop_depth[-1] == 'closure':
            return ast.Return(value=ast.Tuple(elts=[const('B'), const(None)], ctx=ast.Load()))
        return n

    def visit_Continue(self, n):
        if self.loop_depth and self.loop_depth[-1] == 'closure':
            return ast.Return(value=const(None))
        return n

    def visit_Assert(self, n):
        n.test = self.visit(n.test)
        if n.msg is not None:
            n.msg = self.visit(n.msg)
        return n


def transform(src, path, modname):
    tree = ast.parse(src, path)
    t = T(modname)
    body = t.body(tree.body)
    # the hook import goes after the docstring and __future__ imports
    k = 0
    while k < len(body) and ((isinstance(body[k], ast.Expr) and isinstance(body[k].value, ast.Constant)) or
                             (isinstance(body[k], ast.ImportFrom) and body[k].module == '__future__')):
        k += 1
    imp = ast.parse('import pyvc.rt as __vf__').body
    tree.body = body[:k] + imp + body[k:]
    ast.fix_missing_locations(tree)
    return tree


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, names, root='/repo'):
        self.names = set(names)
        self.root = root
        self.loaded = {}

    def find_spec(self, fullname, path, target=None):
        if fullname not in self.names:
            return None
        rel = fullname.replace('.', '/')
        for cand in (os.path.join(self.root, rel + '.py'),):    # packages load as they are
            if os.path.exists(cand):
                spec = importlib.util.spec_from_file_location(fullname, cand, loader=self,
                                                              submodule_search_locations=[os.path.dirname(cand)] if cand.endswith('__init__.py') else None)
                return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = module.__spec__.origin
        src = open(path).read()
        tree = transform(src, path, module.__name__)
        code = compile(tree, path, 'exec')
        self.loaded[module.__name__] = path
        module.__dict__['__vf_instrumented__'] = True
        exec(code, module.__dict__)


def install(names, root='/repo'):
    f = Finder(names, root)
    sys.meta_path.insert(0, f)
    return f


def extract(module, names):
    """The named top-level functions of a package's __init__ file, instrumented mechanically from its current source.

    Packages load as they are (vp_without_spu executes them statement by statement), so functions defined in one are
    taken from its source text, transformed like any other, and executed in a copy of the package's namespace."""
    src = open(module.__file__).read()
    tree = ast.parse(src, module.__file__)
    keep = [s for s in tree.body if isinstance(s, ast.ImportFrom) and s.module == '__future__' or isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name in names]
    tree.body = keep
    ns = dict(module.__dict__, __vf_instrumented__=True)
    exec(compile(transform(ast.unparse(tree), module.__file__, module.__name__), module.__file__, 'exec'), ns)
    return ns
