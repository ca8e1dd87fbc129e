"""Loads /repo's modules for verification.  The source text is parsed on every run and
rewritten mechanically; nothing is hand written and no function is skipped.  What the
rewriting changes (and all it changes):

  f(a, *b)        -> rt.call(f, a, *rt.star(b))     so that builtins see unknown values
  x[i] (load)     -> rt.getitem(x, i)
  [..], [.. for]  -> rt.mlist(..)                   lists whose changes can be followed
  {}              -> rt.mdict()                     likewise
  a is b          -> rt.is_(a, b)                   an unknown value may be None, True, False
  f'..{x}..'      -> rt.fstr(..)
  genexp/listcomp/dictcomp -> rt.genexp(lambda: .., ..)  elementwise over unknown lengths
  for/while       -> the same loop, with calls that cut it by an invariant when the
                     number of iterations is unknown; the test of a while loop is noted
  yield from x    -> yields the items of x one by one, or as one batch if their number
                     is unknown
  def f(*args)    -> args = rt.unstar(args) first
  x.attr = v      -> unchanged; the classes of the package get a __setattr__ that also
                     notes the object, so that loops see which attributes they change
and `struct`, `io.BytesIO` and `copy` are replaced by their models."""
import ast
import builtins
import os
import sys
import types

REPO = os.environ.get('PYVC_REPO', '/repo')
RT = '_pyvc_rt'


def rtcall(fn, *args, keywords=()):
    return ast.Call(ast.Attribute(ast.Name(RT, ast.Load()), fn, ast.Load()), list(args), list(keywords))


def const(x):
    return ast.Constant(x)


class Stored(ast.NodeVisitor):
    """names bound by statements"""

    def __init__(self): self.names, self.decl = [], set()

    def add(self, n):
        if n not in self.names: self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)): self.add(n.id)

    def visit_NamedExpr(self, n):
        self.add(n.target.id)
        self.visit(n.value)

    def visit_FunctionDef(self, n): self.add(n.name)
    visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef
    def visit_Lambda(self, n): pass

    def visit_ListComp(self, n):
        for g in n.generators:
            for w in ast.walk(g):
                if isinstance(w, ast.NamedExpr): self.add(w.target.id)
        for w in ast.walk(n):
            if isinstance(w, ast.NamedExpr): self.add(w.target.id)
    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)

    def visit_Global(self, n): self.decl |= set(n.names)
    visit_Nonlocal = visit_Global


def stored(stmts):
    s = Stored()
    for x in stmts: s.visit(x)
    return [n for n in s.names if n not in s.decl]


class HasYield(ast.NodeVisitor):
    found = False
    def visit_Yield(self, n): self.found = True
    visit_YieldFrom = visit_Yield
    def visit_FunctionDef(self, n): pass
    visit_Lambda = visit_ClassDef = visit_FunctionDef


def early(n):
    """may the body leave this loop other than by its end?"""
    def leaves(s, own):
        if isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): return False
        if isinstance(s, (ast.Return, ast.Raise)) or isinstance(s, ast.Break) and own: return True
        return any(leaves(x, own and not isinstance(s, (ast.For, ast.While))) for x in ast.iter_child_nodes(s))
    return any(leaves(s, True) for s in n.body)


class LoopFix(ast.NodeTransformer):
    """`continue` of this loop first reports the end of the iteration"""

    def __init__(self, tail): self.tail = tail
    def visit_Continue(self, n): return [self.tail(), n]
    def visit_For(self, n): return n
    visit_While = visit_FunctionDef = visit_ClassDef = visit_Lambda = visit_For


class Xform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod, self.k, self.qual, self.fn = modname, 0, [], []

    def site(self, n):
        self.k += 1
        return f'{self.mod}.{".".join(self.qual)}#{self.k}'

    # -- functions
    def visit_FunctionDef(self, n):
        self.qual.append(n.name)
        counts = {}
        for w in ast.walk(n):
            if isinstance(w, ast.Name): counts[w.id] = counts.get(w.id, 0) + 1
        self.fn.append((n, counts))
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.visit_args(n.args)
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        if n.args.vararg:
            v = n.args.vararg.arg
            pre = ast.Assign([ast.Name(v, ast.Store())], rtcall('unstar', ast.Name(v, ast.Load())))
            at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            body.insert(at, pre)
        n.body = body
        self.qual.pop()
        self.fn.pop()
        return n

    def visit_args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]

    def visit_ClassDef(self, n):
        self.qual.append(n.name)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        n.body = body
        self.qual.pop()
        return n

    def visit_Lambda(self, n):
        self.visit_args(n.args)
        n.body = self.visit(n.body)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if type(n.op) is ast.BitOr and type(n.target) is ast.Name:
            return ast.Assign([n.target], rtcall('ior', ast.Name(n.target.id, ast.Load()), n.value))
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None: n.value = self.visit(n.value)
        return n

    # -- expressions
    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'globals') and not n.args:
            return n
        func = self.visit(n.func)
        args = [self.arg(a) for a in n.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords]
        return rtcall('call', func, *args, keywords=kws)

    def arg(self, a):
        if isinstance(a, ast.Starred): return ast.Starred(rtcall('star', self.visit(a.value)), ast.Load())
        return self.visit(a)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in (ast.Is, ast.IsNot):
            return rtcall('is_' if type(n.ops[0]) is ast.Is else 'isnt', n.left, n.comparators[0])
        return n

    def visit_Subscript(self, n):
        n.value = self.visit(n.value)
        n.slice = self.visit(n.slice)
        if isinstance(n.ctx, ast.Load):
            return rtcall('getitem', n.value, self.slice(n.slice))
        return n

    def slice(self, s):
        if isinstance(s, ast.Slice):
            return rtcall('mkslice', s.lower or const(None), s.upper or const(None), s.step or const(None))
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self.slice(e) for e in s.elts], ast.Load())
        return s

    def visit_List(self, n):
        if not isinstance(n.ctx, ast.Load): return self.generic_visit(n)
        return rtcall('mlist', *[self.arg(e) for e in n.elts])

    def visit_Dict(self, n):
        if not n.keys: return rtcall('mdict')
        return self.generic_visit(n)

    def visit_Tuple(self, n):
        if isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            return rtcall('mtuple', *[self.arg(e) for e in n.elts])
        return self.generic_visit(n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else const('')
                parts.append(ast.Tuple([self.visit(v.value), const(v.conversion), spec], ast.Load()))
        return rtcall('fstr', *parts)

    def comp_ok(self, n):
        if len(n.generators) != 1 or n.generators[0].is_async or any(isinstance(w, (ast.Yield, ast.Await)) for w in ast.walk(n)): return False
        if any(isinstance(w, ast.Name) and w.id in ('super', 'locals') for w in ast.walk(n.elt)): return False
        # a name bound inside has to be used in the same part of the comprehension only
        # (the element and the filters are one part)
        for part in [[n.elt] + n.generators[0].ifs, [n.generators[0].iter]]:
            for w in (w for e in part for w in ast.walk(e)):
                if isinstance(w, ast.NamedExpr):
                    if not self.fn: return False
                    uses = sum(isinstance(x, ast.Name) and x.id == w.target.id for e in part for x in ast.walk(e))
                    if uses != self.fn[-1][1].get(w.target.id) or part[0] is n.generators[0].iter: return False
        return True

    def comp(self, n, kind):
        if not self.comp_ok(n): return self.native_comp(n)
        g = n.generators[0]
        it = self.visit(g.iter)
        x = '_pyvc_x'
        target = g.target
        elt = self.visit(n.elt)
        if g.ifs:
            conds = [self.visit(c) for c in g.ifs]
            test = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)
            elt = ast.IfExp(test, ast.Tuple([elt], ast.Load()), ast.Tuple([], ast.Load()))
        # lambda _x: [elt for target in (_x,)][0], without a scope problem
        comp = ast.ListComp(elt, [ast.comprehension(target, ast.Tuple([ast.Name(x, ast.Load())], ast.Load()), [], 0)])
        fn = ast.Lambda(ast.arguments([], [ast.arg(x)], None, [], [], None, []), ast.Subscript(comp, const(0), ast.Load()))
        return rtcall('genexp', const(kind), fn, it, const(self.site(n)), const(bool(g.ifs)))

    def visit_DictComp(self, n):
        new = ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)
        if not self.comp_ok(new): return self.generic_visit(n)
        return self.comp(new, 'dict')

    def native_comp(self, n):
        return self.generic_visit(n)

    def visit_GeneratorExp(self, n): return self.comp(n, 'gen')

    def visit_ListComp(self, n):
        r = self.comp(n, 'list')
        return r if isinstance(r, ast.Call) else rtcall('mlist_from', r)

    # -- yield from
    def visit_Expr(self, n):
        if isinstance(n.value, ast.YieldFrom):
            site = self.site(n)
            self.k += 1
            v = f'_pyvc_y{self.k}'
            loop = ast.For(ast.Name(v, ast.Store()), rtcall('yield_from', self.visit(n.value.value)),
                           [ast.Expr(ast.Yield(ast.Name(v, ast.Load())))], [], None)
            return loop
        n.value = self.visit(n.value)
        return n

    # -- loops
    def cells(self, names, base):
        return ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())

    def loop_parts(self, n, extra):
        self.k += 1
        L = f'_pyvc_l{self.k}'
        names = stored(n.body) + [x for x in extra if x not in stored(n.body)]
        nm = const(tuple(names))
        loc = lambda: ast.Call(ast.Name('locals', ast.Load()), [], [])
        lname = lambda: ast.Name(L, ast.Load())
        meth = lambda m: ast.Call(ast.Attribute(lname(), m, ast.Load()), [loc()], [])

        def assign(m):
            if not names: return ast.Expr(meth(m))
            return ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())], meth(m))
        return L, nm, assign, (lambda: ast.Expr(meth('tail')))

    def visit_For(self, n):
        site = self.site(n)
        tnames = stored([ast.Assign([n.target], const(0))])
        L, nm, assign, tail = self.loop_parts(n, tnames)
        it = self.visit(n.iter)
        body = self.body(n.body)
        body = [y for s in body for y in self.fix(s, tail)]
        tmp = L + 'x'
        pre = ast.Assign([ast.Name(L, ast.Store())], rtcall('for_loop', it, const(site), nm, const(early(n))))
        new = ast.For(ast.Name(tmp, ast.Store()), ast.Name(L, ast.Load()),
                      [assign('head'), ast.Assign([n.target], ast.Name(tmp, ast.Load()))] + body + [tail()],
                      [assign('exit')] + self.body(n.orelse), None)
        return [pre, new]

    def fix(self, s, tail):
        r = LoopFix(tail).visit(s)
        return r if isinstance(r, list) else [r]

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out

    def visit_While(self, n):
        if any(isinstance(w, (ast.Break, ast.Continue)) for s in n.orelse for w in ast.walk(s)):
            return self.generic_visit(n)
        site = self.site(n)
        extra = stored([ast.Expr(n.test)])
        L, nm, assign, tail = self.loop_parts(n, extra)
        test = self.visit(n.test)
        body = self.body(n.body)
        body = [y for s in body for y in self.fix(s, tail)]
        pre = ast.Assign([ast.Name(L, ast.Store())], rtcall('while_loop', const(site), nm))
        new = ast.While(const(True), [assign('head'), ast.If(ast.UnaryOp(ast.Not(), ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'test', ast.Load()), [test], [])), self.body(n.orelse) + [ast.Break()], [])]
                        + body + [tail()], [])
        return [pre, new]


class Loader:
    """imports structured from source into a namespace of its own"""

    def __init__(self, rt, models):
        self.rt, self.models, self.mods = rt, models, {}
        self.sources = {}

    def load(self):
        import importlib.abc
        import importlib.machinery
        for k in [k for k in sys.modules if k == 'structured' or k.startswith('structured.')]:
            del sys.modules[k]
        outer = self

        class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
            def find_spec(self, name, path, target=None):
                if name != 'structured' and not name.startswith('structured.'): return None
                p = os.path.join(REPO, *name.split('.'))
                if os.path.isdir(p):
                    s = importlib.machinery.ModuleSpec(name, self, origin=os.path.join(p, '__init__.py'), is_package=True)
                    s.submodule_search_locations = [p]
                    return s
                if os.path.exists(p + '.py'):
                    return importlib.machinery.ModuleSpec(name, self, origin=p + '.py')
                return None

            def create_module(self, spec): return None

            def exec_module(self, mod):
                src = open(mod.__spec__.origin, encoding='utf8').read()
                outer.sources[mod.__name__] = mod.__spec__.origin
                mod.__file__ = mod.__spec__.origin
                tree = ast.parse(src)
                tree = Xform(mod.__name__).visit(tree)
                ast.fix_missing_locations(tree)
                code = compile(tree, mod.__spec__.origin, 'exec', dont_inherit=True)
                d = mod.__dict__
                d[RT] = outer.rt
                b = dict(builtins.__dict__)
                b['__import__'] = outer.imp
                d['__builtins__'] = b
                exec(code, d)
                outer.mods[mod.__name__] = mod
        f = Finder()
        sys.meta_path.insert(0, f)
        try:
            import structured
            import structured.serializers
            import structured.hint_types
        finally:
            sys.meta_path.remove(f)
        for m in self.mods.values():
            for k in vars(m).values():
                # attribute stores are followed, so that loops see what they change
                if isinstance(k, type) and k.__module__ == m.__name__ and k.__setattr__ is object.__setattr__ and not issubclass(k, (tuple, BaseException)):
                    k.__setattr__ = self.rt.obj_setattr
        self.snapshot()
        return self

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in self.models: return self.models[name]
        return builtins.__import__(name, globals, locals, fromlist, level)

    # -- global state is put back before every path
    def snapshot(self):
        self.saved = []
        seen = set()

        def keep(o):
            if id(o) in seen or type(o) not in (dict, list, set) and type(o).__name__ != 'MList': return
            seen.add(id(o))
            self.saved.append((o, o.copy() if not isinstance(o, list) else list(o)))

        def look(v, depth=0):
            keep(v)
            if isinstance(v, types.FunctionType):
                for x in (v.__defaults__ or ()): keep(x)
                for x in (v.__kwdefaults__ or {}).values(): keep(x)
                for cell in v.__closure__ or ():
                    try: keep(cell.cell_contents)
                    except ValueError: pass
            elif isinstance(v, (staticmethod, classmethod)):
                look(v.__func__, depth)
            elif isinstance(v, type) and depth == 0 and (v.__module__ or '').startswith('structured'):
                for x in vars(v).values(): look(x, 1)
            elif hasattr(v, '__wrapped__') and depth < 3:
                look(v.__wrapped__, depth + 1)
            elif (type(v).__module__ or '').startswith('structured') and hasattr(v, '__dict__'):
                keep(vars(v))
        for m in self.mods.values():
            for k, v in list(vars(m).items()):
                if k in (RT, '__builtins__'): continue
                look(v)

    def restore(self):
        for o, c in self.saved:
            if isinstance(o, list):
                if len(o) != len(c) or any(a is not b for a, b in zip(o, c)): o[:] = c
            elif o.keys() != c.keys() if isinstance(o, dict) else o != c:
                o.clear()
                o.update(c)
            elif isinstance(o, dict):
                for k in c:
                    if o[k] is not c[k]: o[k] = c[k]


_trees = {}


def class_ast(cls):
    """the source of a class of the package"""
    path = getattr(sys.modules.get(cls.__module__), '__file__', None)
    if not path: return None
    if path not in _trees: _trees[path] = ast.parse(open(path, encoding='utf8').read())
    body = _trees[path].body
    found = None
    for name in cls.__qualname__.split('.'):
        if name == '<locals>': return None
        found = next((n for n in body if isinstance(n, ast.ClassDef) and n.name == name), None)
        if found is None: return None
        body = found.body
    return found
