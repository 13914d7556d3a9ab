"""Loads source files with every operation that can meet symbolic data routed
through ops; nothing else in the code is changed."""
import ast
import builtins
import os
import sys
import types
from . import ops
from .engine import EngineSignal, eng

NAMES = {
    '__sx_call__': ops.sx_call, '__sx_getitem__': ops.sx_getitem, '__sx_setitem__': ops.sx_setitem,
    '__sx_in__': ops.sx_in, '__sx_mod__': ops.sx_mod, '__sx_fstr__': ops.sx_fstr,
    '__sx_tick__': ops.sx_tick, '__sx_delitem__': ops.sx_delitem,
    '__sx_mkdict__': ops.sx_mkdict, '__sx_mkset__': ops.sx_mkset, '__sx_signal__': EngineSignal,
}
NO_CALL = {'super', 'locals', 'globals', 'vars', 'dir', 'exec', 'eval'}


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Tx(ast.NodeTransformer):
    def visit_AnnAssign(self, n):
        n.value = self.visit(n.value) if n.value else None
        n.target = self.visit(n.target)
        return n

    def visit_arg(self, n):
        return n

    def _func(self, n):
        n.args.defaults = [self.visit(x) for x in n.args.defaults]
        n.args.kw_defaults = [self.visit(x) if x else x for x in n.args.kw_defaults]
        n.decorator_list = [self.visit(x) for x in n.decorator_list]
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        n.body = body
        n.returns = None
        return n

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in NO_CALL:
            n.args = [self.visit(a) for a in n.args]
            return n
        self.generic_visit(n)
        return ast.copy_location(ast.Call(func=name('__sx_call__'), args=[n.func] + n.args,
                                          keywords=n.keywords), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            idx = n.slice
            if isinstance(idx, ast.Slice):
                none = ast.Constant(None)
                idx = ast.Call(func=name('slice'), args=[idx.lower or none, idx.upper or none,
                                                         idx.step or none], keywords=[])
                idx.func = name('__sx_slice__')
            elif isinstance(idx, ast.Tuple) and any(isinstance(e, ast.Slice) for e in idx.elts):
                return n
            return ast.copy_location(ast.Call(func=name('__sx_getitem__'), args=[n.value, idx], keywords=[]), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=name('__sx_in__'), args=[n.left, n.comparators[0]], keywords=[])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(func=name('__sx_mod__'), args=[n.left, n.right], keywords=[]), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p)
            else:
                spec = self.visit(p.format_spec) if p.format_spec else ast.Constant('')
                parts.append(ast.Tuple(elts=[self.visit(p.value), ast.Constant(p.conversion), spec],
                                       ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=name('__sx_fstr__'), args=parts, keywords=[]), n)

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) \
                and not isinstance(n.targets[0].slice, (ast.Slice, ast.Tuple)):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(ast.Call(
                func=name('__sx_setitem__'), args=[t.value, t.slice, n.value], keywords=[])), n)
        return n

    _n = 0

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        t = n.target
        mod = isinstance(n.op, ast.Mod)
        sub = isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple))
        att = isinstance(t, ast.Attribute)
        if not (sub or mod) or (mod and not (sub or att or isinstance(t, ast.Name))):
            return n
        Tx._n += 1
        tmp = ['__sx_t%d_%s' % (Tx._n, x) for x in 'oig']
        out = []

        def put(nm, value):
            out.append(ast.copy_location(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=value), n))
        if sub:
            put(tmp[0], t.value)
            put(tmp[1], t.slice)
            put(tmp[2], ast.Call(func=name('__sx_getitem__'), args=[name(tmp[0]), name(tmp[1])], keywords=[]))
        elif att:
            put(tmp[0], t.value)
            put(tmp[2], ast.Attribute(value=name(tmp[0]), attr=t.attr, ctx=ast.Load()))
        else:
            put(tmp[2], name(t.id))
        if mod:
            put(tmp[2], ast.Call(func=name('__sx_mod__'), args=[name(tmp[2]), n.value], keywords=[]))
        else:
            out.append(ast.copy_location(ast.AugAssign(target=ast.Name(id=tmp[2], ctx=ast.Store()), op=n.op,
                                                       value=n.value), n))
        if sub:
            out.append(ast.copy_location(ast.Expr(ast.Call(func=name('__sx_setitem__'), args=[
                name(x) for x in tmp], keywords=[])), n))
        else:
            out.append(ast.copy_location(ast.Assign(
                targets=[ast.Attribute(value=name(tmp[0]), attr=t.attr, ctx=ast.Store()) if att else t],
                value=name(tmp[2])), n))
        return out

    def visit_Delete(self, n):
        self.generic_visit(n)
        if any(isinstance(t, ast.Subscript) for t in n.targets):
            out = []
            for t in n.targets:
                if isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
                    s = ast.Expr(ast.Call(func=name('__sx_delitem__'), args=[t.value, t.slice], keywords=[]))
                else:
                    s = ast.Delete(targets=[t])
                out.append(ast.copy_location(s, n))
            return out
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.keys):
            return n
        none = ast.Constant(None)
        pairs = [ast.Tuple(elts=[k, x] if k is not None else [none, x, ast.Constant(0)], ctx=ast.Load())
                 for k, x in zip(n.keys, n.values)]
        return ast.copy_location(ast.Call(func=name('__sx_mkdict__'), args=[ast.List(elts=pairs, ctx=ast.Load())],
                                          keywords=[]), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        if any(g.is_async for g in n.generators):
            return n
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
        return ast.copy_location(ast.Call(func=name('__sx_mkdict__'), args=[g], keywords=[]), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.elts) or any(isinstance(k, ast.Starred) for k in n.elts):
            return n
        return ast.copy_location(ast.Call(func=name('__sx_mkset__'), args=[ast.List(elts=n.elts, ctx=ast.Load())],
                                          keywords=[]), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        if any(g.is_async for g in n.generators):
            return n
        g = ast.GeneratorExp(elt=n.elt, generators=n.generators)
        return ast.copy_location(ast.Call(func=name('__sx_mkset__'), args=[g], keywords=[]), n)

    def _loop(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.copy_location(ast.Expr(ast.Call(func=name('__sx_tick__'), args=[], keywords=[])), n))
        return n

    visit_While = _loop
    visit_For = _loop

    def visit_Try(self, n):
        self.generic_visit(n)

        def broad(h):
            ts = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
            return h.type is None or any(isinstance(t, ast.Name) and t.id == 'BaseException' for t in ts)
        if any(broad(h) for h in n.handlers):
            n.handlers.insert(0, ast.ExceptHandler(type=name('__sx_signal__'), name=None, body=[ast.Raise()]))
        return n


_cache = {}


def compile_file(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _cache:
        with open(path, 'rb') as f:
            src = f.read()
        tree = Tx().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        _cache[key] = (compile(tree, path, 'exec', dont_inherit=True), src)
    return _cache[key][0]


class Loader:
    """a private module universe: instrumented modules + stubs"""

    def __init__(self, roots, stubs, stdlib=()):
        self.roots = roots            # package name -> directory of the package
        self.stubs = stubs            # name -> module-like object / None (ImportError)
        self.stdlib = dict(stdlib)    # name -> path, instrumented
        self.mods = {}
        self.keep = {}                # instrumented stdlib modules survive reset
        b = dict(builtins.__dict__)
        b.update(NAMES)
        b['__sx_slice__'] = slice
        b['__import__'] = self._import
        b['__debug__'] = True
        self.builtins = b
        self.loaded_files = set()
        self.snaps = {}               # harness module -> (mods, keep, snapshot)

    def reset(self, harness=None):
        """put every module back into its freshly imported state"""
        if harness is None:
            self.mods = {}
            return
        if harness not in self.snaps:
            self.mods = {}
            for pkg, d in self.roots.items():
                if pkg == 'harness':
                    continue
                for f in sorted(os.listdir(d)):
                    if f.endswith('.py') and f[:-3] not in self.lazy:
                        try:
                            self.load(pkg if f == '__init__.py' else '%s.%s' % (pkg, f[:-3]))
                        except ImportError:
                            pass
            self.load(harness)
            self.snaps[harness] = (dict(self.mods), Snapshot(list(self.mods.values()) + list(self.keep.values()), self))
            return
        mods, snap = self.snaps[harness]
        self.mods = dict(mods)
        snap.restore()

    lazy = ('capture_http',)

    def path_of(self, modname):
        if modname in self.stdlib:
            return self.stdlib[modname], False
        parts = modname.split('.')
        if parts[0] in self.roots:
            p = os.path.join(os.path.dirname(self.roots[parts[0]]), *parts)
            if os.path.isdir(p):
                return os.path.join(p, '__init__.py'), True
            if os.path.isfile(p + '.py'):
                return p + '.py', False
        return None, False

    def load(self, modname):
        if modname in self.mods:
            return self.mods[modname]
        if modname in self.keep:
            return self.keep[modname]
        if modname in self.stubs:
            m = self.stubs[modname]
            if m is None:
                raise ImportError('No module named ' + modname)
            if isinstance(m, types.FunctionType):
                m = m()
            return m
        path, ispkg = self.path_of(modname)
        if path is None:
            if modname.split('.')[0] in self.roots:
                raise ImportError('No module named ' + modname)
            __import__(modname)
            return sys.modules[modname]
        if '.' in modname:
            self.load(modname.rpartition('.')[0])
        m = types.ModuleType(modname)
        m.__file__ = path
        m.__builtins__ = self.builtins
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__package__ = modname if ispkg else modname.rpartition('.')[0]
        m.__dict__['__builtins__'] = self.builtins
        store = self.keep if modname in self.stdlib else self.mods
        store[modname] = m
        self.loaded_files.add(path)
        real = sys.modules.get(modname)
        if store is self.keep:
            sys.modules[modname] = m
        try:
            exec(compile_file(path), m.__dict__)
        except BaseException:
            store.pop(modname, None)
            raise
        finally:
            if store is self.keep:
                if real is None:
                    sys.modules.pop(modname, None)
                else:
                    sys.modules[modname] = real
        if modname in self.patches:
            self.patches[modname](m)
        if '.' in modname:
            parent, _, child = modname.rpartition('.')
            p = self.mods.get(parent) or self.keep.get(parent)
            if p is not None:
                setattr(p, child, m)
        return m

    def _import(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            nm = pkg + '.' + nm if nm else pkg
        m = self.load(nm)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try:
                        sub = self.load(nm + '.' + f)
                        try:
                            setattr(m, f, sub)
                        except Exception:
                            pass
                    except ImportError:
                        pass
            return m
        if '.' in nm:
            return self.load(nm.split('.')[0])
        return m


class Snapshot:
    """mutable state reachable from modules, their classes and functions"""

    def __init__(self, mods, loader):
        self.recs = []
        self.cleared = []
        self.seen = set()
        self.own = {id(m.__dict__) for m in mods}
        self.names = {m.__name__ for m in mods}
        for m in mods:
            self.visit(m.__dict__)

    def visit(self, o):
        if id(o) in self.seen:
            return
        t = type(o)
        if t in (int, str, bytes, bool, float, type(None)):
            return
        self.seen.add(id(o))
        if t is dict:
            skip = id(o) in self.own
            self.recs.append(('dict', o, dict(o)))
            for k, x in list(o.items()):
                if not (skip and k in ('__builtins__', '__spec__', '__loader__')):
                    self.visit(x)
        elif t is list:
            self.recs.append(('list', o, list(o)))
            for x in o:
                self.visit(x)
        elif t is set:
            self.recs.append(('set', o, set(o)))
        elif t is tuple:
            for x in o:
                self.visit(x)
        elif isinstance(o, type):
            if o.__module__ in self.names:
                self.recs.append(('class', o, (o.__bases__, dict(vars(o)))))
                for x in list(vars(o).values()):
                    self.visit(x)
        elif t is types.FunctionType:
            if id(o.__globals__) not in self.own:
                return
            self.visit(o.__dict__)
            self.visit(o.__defaults__)
            self.visit(o.__kwdefaults__)
            for c in o.__closure__ or ():
                try:
                    x = c.cell_contents
                except ValueError:
                    continue
                self.recs.append(('cell', c, x))
                self.visit(x)
        elif t in (staticmethod, classmethod):
            self.visit(o.__func__)
        elif t is property:
            for f in (o.fget, o.fset, o.fdel):
                self.visit(f)
        elif hasattr(t, 'cache_clear'):
            self.cleared.append(o)
            self.visit(getattr(o, '__wrapped__', None))
        elif t.__module__ in self.names or t.__module__ in ('collections', 'threading', '_thread'):
            d = getattr(o, '__dict__', None)
            if type(d) is dict:
                self.visit(d)
            if isinstance(o, dict):
                self.recs.append(('dict', o, dict(o)))
            elif hasattr(o, 'maxlen'):
                self.recs.append(('deque', o, list(o)))

    def restore(self):
        for kind, o, s in self.recs:
            if kind == 'dict':
                if o != s:
                    o.clear()
                    o.update(s)
            elif kind == 'list':
                if o != s:
                    o[:] = s
            elif kind == 'set':
                if o != s:
                    o.clear()
                    o.update(s)
            elif kind == 'deque':
                o.clear()
                o.extend(s)
            elif kind == 'cell':
                try:
                    if o.cell_contents is s:
                        continue
                except ValueError:
                    pass
                o.cell_contents = s
            else:
                bases, s = s
                if o.__bases__ != bases:
                    o.__bases__ = bases
                cur = vars(o)
                if cur != s:
                    for k in list(cur):
                        if k not in s:
                            delattr(o, k)
                    for k, x in s.items():
                        if cur.get(k, self) is not x:
                            setattr(o, k, x)
        for o in self.cleared:
            o.cache_clear()
