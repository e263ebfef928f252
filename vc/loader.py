"""Loads the modules of /repo/torchdyn, transformed mechanically so that loops can be cut and lists, builtins and torch
factories see symbolic values.  Nothing else of the code is changed; see DESIGN.md ("Extraction") for the exact list."""
import ast, importlib.abc, importlib.machinery, importlib.util, os, sys, hashlib
from . import tfun

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'torchdyn'
SOURCES = {}


def names_stored(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
    return out


def _own_stores(stmts):
    "names assigned by these statements themselves, not inside nested functions or comprehensions"
    out = set()
    class W(ast.NodeVisitor):
        def visit_FunctionDef(self, n): out.add(n.name)
        visit_AsyncFunctionDef = visit_FunctionDef
        def visit_ClassDef(self, n): out.add(n.name)
        def visit_Lambda(self, n): pass
        def _comp(self, n):
            for g in n.generators: self.visit(g.iter)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        def visit_Import(self, n):
            for a in n.names: out.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import
        def visit_ExceptHandler(self, n):
            if n.name: out.add(n.name)
            self.generic_visit(n)
    w = W()
    for s in stmts: w.visit(s)
    return out


def loads(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def live_in(stmts, assigned=None):
    "names that may be read before they are definitely assigned by `stmts` (conservative)"
    live, done = set(), set(assigned or ())
    def expr(n):
        live.update(loads(n) - done)
    def block(stmts):
        nonlocal done
        for s in stmts:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                if s.value is not None: expr(s.value)
                tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tg:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in done: live.add(n.id)
                if s.value is not None:
                    for t in tg: done |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            elif isinstance(s, ast.AugAssign):
                expr(s.value)
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name) and n.id not in done: live.add(n.id)
                done |= names_stored(s.target)
            elif isinstance(s, ast.If):
                expr(s.test)
                d0 = set(done)
                block(s.body); d1 = done
                done = set(d0)
                block(s.orelse)
                ends = lambda b: bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
                if ends(s.body): pass
                elif ends(s.orelse): done = d1
                else: done = done & d1
            elif isinstance(s, (ast.While, ast.For)):
                d0 = set(done)
                expr(s.test if isinstance(s, ast.While) else s.iter)
                if isinstance(s, ast.For): done |= names_stored(s.target)
                block(s.body)
                done = set(d0)
                block(s.orelse)
                done = set(d0)
            elif isinstance(s, ast.With):
                for it in s.items:
                    expr(it.context_expr)
                    if it.optional_vars is not None: done |= names_stored(it.optional_vars)
                block(s.body)
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                expr(s)
                done.add(s.name)
            elif isinstance(s, ast.Try):
                d0 = set(done)
                block(s.body); done = set(d0)
                for h in s.handlers: block(h.body); done = set(d0)
                block(s.orelse); done = set(d0)
                block(s.finalbody); done = set(d0)
            else:
                expr(s)
                # an expression statement etc.; walrus targets stay conservative
    block(stmts)
    return live


class Transform(ast.NodeTransformer):
    def __init__(self, module):
        self.module, self.n, self.qual, self.funcs = module, 0, [], []

    def visit_FunctionDef(self, node):
        self.qual.append(node.name)
        self.funcs.append(node)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.body = self.block(node.body)
        self.funcs.pop(); self.qual.pop()
        return node

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        funcs, self.funcs = self.funcs, []
        self.generic_visit(node)
        self.funcs = funcs
        self.qual.pop()
        return node

    def visit_Lambda(self, node):
        self.funcs.append(node)
        self.generic_visit(node)
        self.funcs.pop()
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def generic_visit(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(getattr(node, f, None), list) and not isinstance(node, (ast.Lambda,)) and getattr(node, f) and isinstance(getattr(node, f)[0], ast.stmt):
                setattr(node, f, self.block(getattr(node, f)))
        for f, old in ast.iter_fields(node):
            if f in ('body', 'orelse', 'finalbody') and isinstance(old, list) and old and isinstance(old[0], ast.stmt): continue
            if isinstance(old, list):
                setattr(node, f, [self.visit(v) if isinstance(v, ast.AST) else v for v in old])
            elif isinstance(old, ast.AST):
                setattr(node, f, self.visit(old))
        return node

    # ---- loops
    def _live(self, loop):
        "names whose value at the loop's head matters"
        stores = _own_stores(loop.body) | (_own_stores([ast.Expr(loop.test)]) if isinstance(loop, ast.While) else set())
        if isinstance(loop, ast.While):
            live = live_in([ast.Expr(loop.test)] + loop.body)
            inner = stores
        else:
            live = live_in(loop.body, names_stored(loop.target))
            inner = stores | names_stored(loop.target)
        # read anywhere else in the function (after the loop, or before it through an outer loop)
        inside = {id(n) for n in ast.walk(loop)}
        for f in self.funcs[-1:]:
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside: live.add(n.id)
        # read by nested functions of the loop or comprehension
        g = {x for n in ast.walk(loop) if isinstance(n, (ast.Lambda, ast.FunctionDef)) for x in loads(n)}
        live |= g & inner
        return sorted(inner), sorted(inner & live)

    def _loop(self, node, kind):
        inner, live = self._live(node)
        self.n += 1
        lid = f"{self.module}:{'.'.join(self.qual)}:{self.n}"
        var = f"__vc_l{self.n}"
        glob = [n.names for f in self.funcs[-1:] for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal))]
        if any(set(g) & set(inner) for g in glob): inner, live = inner, live
        mk = ast.parse(f"{var} = __vc__.{kind}({lid!r}, locals(), {inner!r}, {live!r})").body[0]
        pre = [mk]
        if kind == 'forloop': mk.value.args.append(self.visit(node.iter))
        if inner:
            pre.append(ast.parse(f"({''.join(n + ', ' for n in inner)}) = {var}.havoc()").body[0])
        body = self.block(node.body)
        if kind == 'whileloop':
            test = ast.parse(f"{var}.head(locals()) and {var}.begin() and {var}.end(X)", mode='eval').body
            test.values[2].args[0] = self.visit(node.test)
        else:
            test = ast.parse(f"{var}.head(locals()) and {var}.next()", mode='eval').body
            asg = ast.parse("X = %s.value" % var).body[0]
            asg.targets[0] = node.target
            body = [asg] + body
        w = ast.While(test=test, body=body, orelse=self.block(node.orelse))
        post = ast.parse(f"{var}.exit()").body[0]
        out = pre + [w, post]
        for s in out:
            for n in ast.walk(s):
                if not hasattr(n, 'lineno') or n.lineno == 1: ast.copy_location(n, node)
                if 'lineno' in n._attributes and (not hasattr(n, 'end_lineno') or True):
                    n.end_lineno = None if False else getattr(n, 'lineno', node.lineno); n.end_col_offset = getattr(n, 'col_offset', 0)
            ast.fix_missing_locations(s)
        return out

    def visit_While(self, node):
        return self._loop(node, 'whileloop') if self.funcs else self.generic_visit(node)

    def visit_For(self, node):
        return self._loop(node, 'forloop') if self.funcs else self.generic_visit(node)

    # ---- comprehensions over several sequences, as statements: nested loops
    def _nested(self, node, comp):
        if not self.funcs or not isinstance(comp, ast.ListComp): return None
        gs = comp.generators
        if len(gs) < 2 or any(g.is_async for g in gs): return None
        if any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.NamedExpr)) for n in ast.walk(comp) if n is not comp): return None
        self.n += 1
        tag = f"__vc_c{self.n}"
        names = {x for g in gs for x in names_stored(g.target)}
        def ren(n):
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and m.id in names: m.id = f"{tag}_{m.id}"
            return n
        body = [ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(tag, ast.Load()), attr='append', ctx=ast.Load()), args=[ren(comp.elt)], keywords=[]))]
        for k, g in reversed(list(enumerate(gs))):
            for c in reversed(g.ifs): body = [ast.If(test=ren(c), body=body, orelse=[])]
            body = [ast.For(target=ren(g.target), iter=g.iter if k == 0 else ren(g.iter), body=body, orelse=[])]
        pre = [ast.Assign(targets=[ast.Name(tag, ast.Store())], value=ast.List(elts=[], ctx=ast.Load()))] + body
        if isinstance(node, ast.Assign):
            pre.append(ast.Assign(targets=node.targets, value=ast.Name(tag, ast.Load())))
        for s in pre:
            for n in ast.walk(s): 
                if 'lineno' in n._attributes: n.lineno = n.end_lineno = node.lineno; n.col_offset = n.end_col_offset = node.col_offset
        return self.block(pre)

    def visit_Assign(self, node):
        r = self._nested(node, node.value)
        return r if r is not None else self.generic_visit(node)

    def visit_Expr(self, node):
        r = self._nested(node, node.value)
        return r if r is not None else self.generic_visit(node)

    # ---- comprehensions over one sequence
    def _comp(self, node, fn):
        if len(node.generators) == 1 and not node.generators[0].is_async and self.funcs and not any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await)) for n in ast.walk(node)):
            g = node.generators[0]
            it = self.visit(g.iter)
            self.funcs.append(node)
            elt = self.visit(node.elt)
            ifs = [self.visit(i) for i in g.ifs]
            self.funcs.pop()
            cond = ast.BoolOp(op=ast.And(), values=ifs) if len(ifs) > 1 else (ifs[0] if ifs else None)
            # tuple targets are unpacked by a helper lambda
            def lam(body):
                if isinstance(g.target, ast.Name):
                    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
                if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                    inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=e.id) for e in g.target.elts], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
                    return ast.parse("lambda __vc_t: (F)(*__vc_t)", mode='eval').body, inner
                return None
            def mk(body):
                r = lam(body)
                if isinstance(r, tuple):
                    r[0].body.func = r[1]
                    return r[0]
                return r
            l1 = mk(elt)
            if l1 is not None:
                call = ast.parse(f"__vc__.{fn}()", mode='eval').body
                call.args = [l1, it] + ([mk(cond)] if cond is not None else [])
                ast.copy_location(call, node)
                for n in ast.walk(call):
                    if 'lineno' in n._attributes:
                        n.lineno = n.end_lineno = node.lineno; n.col_offset = n.end_col_offset = node.col_offset
                return call
            # fall through: untransformed (children already visited)
            node.elt, g.iter, g.ifs = elt, it, ifs
            return node
        return self.generic_visit(node)

    def visit_ListComp(self, node): return self._comp(node, 'listcomp')
    def visit_GeneratorExp(self, node): return self._comp(node, 'genexp')

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.funcs:
            c = ast.Call(func=ast.Attribute(value=ast.Name('__vc__', ast.Load()), attr='mklist', ctx=ast.Load()), args=[node], keywords=[])
            return ast.copy_location(c, node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=ast.Attribute(value=ast.Name('__vc__', ast.Load()), attr='contains', ctx=ast.Load()), args=[node.left, node.comparators[0]], keywords=[])
            ast.copy_location(c, node)
            if isinstance(node.ops[0], ast.NotIn): c = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=c), node)
            return c
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in tfun.CALLS and self.funcs:
            node.func = ast.copy_location(ast.Attribute(value=ast.Name('__vc__', ast.Load()), attr='call_' + node.func.id, ctx=ast.Load()), node.func)
        return node

    def _attr_store(self, node):
        return node


class VCLoader(importlib.abc.SourceLoader):
    def __init__(self, fullname, path): self.fullname, self.path = fullname, path
    def get_filename(self, fullname): return self.path
    def get_data(self, path):
        with open(path, 'rb') as fh: return fh.read()
    def path_stats(self, path): raise OSError
    def get_code(self, fullname):
        src = self.get_data(self.path)
        SOURCES[self.path] = hashlib.sha256(src).hexdigest()
        tree = ast.parse(src, self.path)
        tree = Transform(fullname).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, self.path, 'exec', dont_inherit=True)
    def source_to_code(self, data, path, *, _optimize=-1): return self.get_code(self.fullname)
    def exec_module(self, module):
        from . import rt
        module.__dict__['__vc__'] = rt
        for k, v in tfun.BUILTINS.items(): module.__dict__[k] = v
        import types
        code = self.get_code(self.fullname)
        exec(code, module.__dict__)
        import torch
        for k, v in list(module.__dict__.items()):
            if v is torch: module.__dict__[k] = tfun.TorchProxy(torch)
            elif isinstance(v, types.ModuleType) and v.__name__ == 'torch.nn.functional': module.__dict__[k] = tfun.TorchProxy(v)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + '.'): return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            if not os.path.exists(p):
                sp = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
                sp.submodule_search_locations = [base]
                return sp
            return importlib.util.spec_from_file_location(fullname, p, loader=VCLoader(fullname, p), submodule_search_locations=[base])
        p = base + '.py'
        if os.path.exists(p): return importlib.util.spec_from_file_location(fullname, p, loader=VCLoader(fullname, p))
        return None


def install():
    for m in list(sys.modules):
        if m == PKG or m.startswith(PKG + '.'): raise RuntimeError("torchdyn was imported before the verifier")
    sys.meta_path.insert(0, Finder())
    import torch     # its C implementation does not survive arguments that only look like tensors
    native = torch.pow
    if getattr(native, '__vc__', False): return
    def pow(a, b, *r, **k):
        if any(hasattr(type(v), '__vc_dispatch__') or type(v).__module__ == 'vc.values' for v in (a, b)): return a ** b
        return native(a, b, *r, **k)
    pow.__vc__ = True
    torch.pow = pow
