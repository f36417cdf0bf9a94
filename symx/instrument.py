"""load python source so that it runs on symbolic values (AST rewrite at import)"""
import ast
import builtins
import hashlib
import importlib.abc
import importlib.util
import os
import sys
import types
import warnings

from . import calls
from .containers import SDict, SSet, SFrozen, SAnySet

REPO = os.environ.get('PYSWAGGER_REPO', '/repo')
NO_CALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', 'SX_call'}


class Rewriter(ast.NodeTransformer):
    def _n(self, name, args, node, kw=None):
        return ast.copy_location(ast.Call(
            func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=kw or []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NO_CALL:
            return node
        return self._n('SX_call', [node.func] + node.args, node, node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, r = node.ops[0], node.comparators[0]
            if isinstance(op, ast.In):
                return self._n('SX_in', [node.left, r], node)
            if isinstance(op, ast.NotIn):
                return self._n('SX_notin', [node.left, r], node)
            if isinstance(op, (ast.Is, ast.IsNot)):
                if isinstance(r, ast.Constant) and r.value is None:
                    return node
                return self._n('SX_is' if isinstance(op, ast.Is) else 'SX_isnot', [node.left, r], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Slice):
                none = ast.Constant(value=None)
                s = ast.Call(func=ast.Name(id='SX_slice', ctx=ast.Load()),
                             args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
            elif isinstance(s, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in s.elts):
                return node
            return self._n('SX_getitem', [node.value, s], node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr == '__class__':
            return self._n('SX_class', [node.value], node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        ps = []
        for k, v in zip(node.keys, node.values):
            ps.append(ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()))
        return self._n('SX_dict', ps, node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                             generators=node.generators)
        return self._n('SX_dictcomp', [g], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._n('SX_set', [ast.List(elts=node.elts, ctx=ast.Load())], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return self._n('SX_set', [g], node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._n('SX_mod', [node.left, node.right], node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        ps = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                conv = None if v.conversion in (-1, None) else chr(v.conversion)
                ps.append(ast.Tuple(elts=[v.value, v.format_spec or ast.Constant(value=''),
                                          ast.Constant(value=conv)], ctx=ast.Load()))
            else:
                ps.append(v)
        return self._n('SX_fstr', ps, node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.copy_location(ast.Name(id='SX_Exception', ctx=ast.Load()), node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        self.generic_visit(node)
        return node

    def visit_MatchValue(self, node):
        return node


HOOKS = {k: getattr(calls, k) for k in dir(calls) if k.startswith('SX_')}
HOOKS['SX_slice'] = slice
HOOKS['SX_Exception'] = Exception

MODULES = {}        # registry: name -> module as seen by instrumented code
INSTRUMENTED = {}   # name -> (module, path, sha)
FUNCS = set()


def open_(*a, **k):
    return builtins.open(*a, **k)     # looked up late: harnesses replace it


def make_builtins(import_):
    b = dict(vars(builtins))
    b.update(HOOKS)
    b['dict'] = SDict
    b['set'] = SSet
    b['frozenset'] = SFrozen
    b['__import__'] = import_
    b['open'] = open_
    return b


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = (globals or {}).get('__package__') or (globals or {}).get('__name__', '')
        name2 = importlib.util.resolve_name('.' * level + (name or ''), pkg)
        mod = load(name2)
        if not fromlist:
            return mod if not name else load(name2[:len(name2) - len(name)] + name.split('.')[0])
        return _fromlist(mod, name2, fromlist)
    mod = load(name)
    if fromlist:
        return _fromlist(mod, name, fromlist)
    return load(name.split('.')[0])


def _fromlist(mod, name, fromlist):
    for f in fromlist:
        if f != '*' and not hasattr(mod, f):
            try:
                load(name + '.' + f)
            except ImportError:
                pass
    return mod


def load(name):
    m = MODULES.get(name)
    if m is not None:
        return m
    from . import libs
    m = libs.provide(name)
    if m is not None:
        MODULES[name] = m
        return m
    __import__(name)
    return sys.modules[name]


def rewrite(src, path):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src, path)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return compile(tree, path, 'exec', dont_inherit=True)


def exec_source(mod, path, src=None, patch=None):
    if src is None:
        with open(path, encoding='utf-8') as f:
            src = f.read()
    if patch:
        src = patch(src)
    code = rewrite(src, path)
    INSTRUMENTED[mod.__name__] = (mod, path, hashlib.sha256(src.encode()).hexdigest()[:16])
    mod.__dict__['__builtins__'] = make_builtins(sx_import)
    mod.__file__ = path
    exec(code, mod.__dict__)
    return mod


def clone(name, path, patch=None, package=False, register=True):
    """a private instrumented copy of a library module (not in sys.modules)"""
    mod = types.ModuleType(name)
    if package:
        mod.__path__ = [os.path.dirname(path)]
        mod.__package__ = name
    else:
        mod.__package__ = name.rpartition('.')[0]
    if register:
        MODULES[name] = mod
    exec_source(mod, path, patch=patch)
    if register and '.' in name:
        par, _, ch = name.rpartition('.')
        if par in MODULES:
            setattr(MODULES[par], ch, mod)
    return mod


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """pyswagger (from the repository) and the harness package"""

    def __init__(self, roots):
        self.roots = roots      # package name -> parent dir

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            spec = importlib.util.spec_from_file_location(fullname, p, loader=self,
                                                          submodule_search_locations=[base])
        elif os.path.isfile(base + '.py'):
            spec = importlib.util.spec_from_file_location(fullname, base + '.py', loader=self)
        else:
            return None
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec_source(module, module.__spec__.origin)


def install(roots):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))


# ---------------------------------------------------------------- state reset between paths
class Snapshot(object):
    """module-level and class-level state of the instrumented modules"""

    def __init__(self, names=None):
        self.containers = {}
        self.dicts = []
        seen = set()
        for name, (mod, path, _) in list(INSTRUMENTED.items()):
            d = mod.__dict__
            self.dicts.append((d, {k: v for k, v in d.items() if k != '__builtins__'}, None))
            for v in list(d.values()):
                self._obj(v, seen, 0, mod.__name__)

    def _obj(self, v, seen, depth, modname):
        if id(v) in seen or depth > 5:
            return
        t = type(v)
        if t in (list, SSet, dict) or SDict in t.__mro__:
            seen.add(id(v))
            self._container(v)
            it = list(v.values()) if issubclass(t, dict) else list(v)
            for x in it:
                self._obj(x, seen, depth + 1, modname)
        elif isinstance(v, type) and getattr(v, '__module__', None) in INSTRUMENTED:
            seen.add(id(v))
            self.dicts.append((v, dict(vars(v)), v))
            for x in list(vars(v).values()):
                self._obj(x, seen, depth + 1, modname)
        elif t is types.FunctionType:
            seen.add(id(v))
            for x in (v.__defaults__ or ()):
                self._obj(x, seen, depth + 1, modname)
            for x in (v.__kwdefaults__ or {}).values():
                self._obj(x, seen, depth + 1, modname)
            for c in (v.__closure__ or ()):
                try:
                    self._obj(c.cell_contents, seen, depth + 1, modname)
                except ValueError:
                    pass
        elif t in (classmethod, staticmethod):
            self._obj(v.__func__, seen, depth, modname)
        elif t is property:
            for f in (v.fget, v.fset):
                if f is not None:
                    self._obj(f, seen, depth, modname)
        elif getattr(t, '__module__', None) in INSTRUMENTED and hasattr(v, '__dict__') \
                and type(v.__dict__) is dict and not isinstance(v, type):
            seen.add(id(v))
            self.dicts.append((v.__dict__, dict(v.__dict__), None))
            for x in list(v.__dict__.values()):
                self._obj(x, seen, depth + 1, modname)

    def _container(self, v):
        t = type(v)
        if t is list:
            self.containers[id(v)] = (v, list(v))
        elif t is dict:
            self.containers[id(v)] = (v, dict(v))
        elif SDict in t.__mro__:
            self.containers[id(v)] = (v, list(dict.items(v)))
        else:
            self.containers[id(v)] = (v, list(v))

    def restore(self):
        for v, s in self.containers.values():
            t = type(v)
            if t is list:
                if len(v) != len(s) or any(a is not b for a, b in zip(v, s)):
                    v[:] = s
            elif t is dict:
                if len(v) != len(s) or any(v.get(k, self) is not x for k, x in s.items()):
                    v.clear()
                    v.update(s)
            elif SDict in t.__mro__:
                if v._sx_x() is not None or dict.__len__(v) != len(s) or \
                        any(dict.get(v, k, self) is not x for k, x in s):
                    SDict.clear(v)
                    for k, x in s:
                        dict.__setitem__(v, k, x)
            else:
                if v._d._sx_x() is not None or len(v) != len(s):
                    v.clear()
                    for x in s:
                        v.add(x)
        for d, s, cls in self.dicts:
            if cls is None:
                cur = d
                if len(cur) - ('__builtins__' in cur) != len(s):
                    for k in list(cur):
                        if k not in s and k != '__builtins__':
                            del cur[k]
                for k, x in s.items():
                    if cur.get(k, self) is not x:
                        cur[k] = x
            else:
                cur = vars(cls)
                if len(cur) != len(s):
                    for k in list(cur):
                        if k not in s:
                            delattr(cls, k)
                for k, x in s.items():
                    if cur.get(k, self) is not x:
                        setattr(cls, k, x)
