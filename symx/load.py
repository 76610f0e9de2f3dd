# -*- coding: utf-8 -*-
"""Import /repo's current source with call-rewriting and environment stubs.

Stubs: numba.jit = identity, numba.prange = range (with access tracking), matplotlib =
inert, pyfftw / torch / cupy absent (torch & cupy fakes are opt-in, see gpu.py).
"""
import ast
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types
import logging
from . import arr, core

REPO = os.environ.get('SSQ_REPO', '/repo')
PKG = 'ssqueezepy'
ENTERED = {}


def _enter(name):
    ENTERED[name] = ENTERED.get(name, 0) + 1


class _Rewrite(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod, self.stack = mod, []

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in arr.BUILTINS:
            node.func = ast.copy_location(
                ast.Name('_symx_' + node.func.id, ast.Load()), node.func)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node

        def sl(e):
            if isinstance(e, ast.Slice):
                return ast.Call(ast.Name('slice', ast.Load()), [
                    q if q is not None else ast.Constant(None)
                    for q in (e.lower, e.upper, e.step)], [])
            if isinstance(e, ast.Tuple):
                return ast.Tuple([sl(q) for q in e.elts], ast.Load())
            return e
        return ast.copy_location(ast.Call(
            ast.Name('_symx_get', ast.Load()), [node.value, sl(node.slice)], []),
            node)

    def _fn(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        if any('jit' in ast.dump(d) for d in node.decorator_list):
            _merge_loops(node)
        q = self.mod + '.' + '.'.join(self.stack)
        self.stack.pop()
        call = ast.Expr(ast.Call(ast.Name('_symx_enter', ast.Load()),
                                 [ast.Constant(q)], []))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and \
                isinstance(node.body[0].value, ast.Constant):
            i = 1
        node.body.insert(i, call)
        return node

    visit_FunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


_MUTATE = {'append', 'extend', 'insert', 'pop', 'remove', 'add', 'update', 'fill',
           'sort', 'clear', 'setdefault'}


class _Cont(ast.NodeTransformer):
    def visit_Continue(self, node):
        return ast.copy_location(ast.Return(ast.Constant(None)), node)

    def visit_FunctionDef(self, node):
        return node
    visit_Lambda = visit_FunctionDef


def _targets(nodes):
    out = set()
    for n in nodes:
        for q in ast.walk(n):
            if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store):
                out.add(q.id)
    return out


def _merge_loops(fn):
    """Innermost loops of compiled kernels: turn the body into a closure whose
    branches are explored and merged per iteration (core.Engine.iterate)."""
    class V(ast.NodeTransformer):
        n = 0

        def visit_FunctionDef(self, node):
            return node
        visit_Lambda = visit_FunctionDef

        def visit_For(self, node):
            self.generic_visit(node)
            inner = [q for b in node.body for q in ast.walk(b)]
            if node.orelse or any(isinstance(q, (
                    ast.For, ast.While, ast.Break, ast.Return, ast.Yield,
                    ast.YieldFrom, ast.FunctionDef, ast.Global, ast.Nonlocal,
                    ast.Try, ast.With, ast.Raise, ast.Delete)) for q in inner):
                return node
            if any(isinstance(q, ast.Attribute) and q.attr in _MUTATE
                   for q in inner):
                return node
            if not any(isinstance(q, (ast.If, ast.IfExp, ast.BoolOp, ast.Call,
                                      ast.Compare)) for q in inner):
                return node
            names = sorted(_targets(node.body))
            V.n += 1
            nm = '_symx_body%d' % V.n
            body = [_Cont().visit(b) for b in node.body]
            if names:
                body.insert(0, ast.Nonlocal(names))
            d = ast.FunctionDef(
                name=nm, args=ast.arguments([], [], None, [], [], None, []),
                body=body, decorator_list=[], returns=None, type_params=[])
            call = ast.Expr(ast.Call(
                ast.Name('_symx_iterate', ast.Load()),
                [ast.Name(nm, ast.Load()),
                 ast.Tuple([ast.Constant(x) for x in names], ast.Load())], []))
            new = ast.For(node.target, node.iter, [d, call], [], None)
            V.bound |= set(names)
            return ast.copy_location(new, node)
    V.bound = set()
    v = V()
    fn.body = [v.visit(b) for b in fn.body]
    if V.bound:     # make the names locals of the enclosing function
        dead = ast.If(ast.Constant(False), [ast.Assign(
            [ast.Name(x, ast.Store())], ast.Constant(None))
            for x in sorted(V.bound)], [])
        i = 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(
            fn.body[0].value, ast.Constant) else 0
        fn.body.insert(i, dead)


def _iterate(body, names):
    if core.ENG is None:
        return body()
    core.ENG.iterate(body, names)


def _get(a, i):
    if type(a) is arr._nd and core.ENG is not None and (
            isinstance(i, (arr.SymArray, core.Num)) or isinstance(i, tuple)
            and any(isinstance(q, (arr.SymArray, core.Num)) for q in i)):
        return arr.SymArray(a.astype(object), a.dtype)[i]
    return a[i]


class _Loader(importlib.abc.Loader):
    def __init__(self, path, name):
        self.path, self.name = path, name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = _Rewrite(self.name[len(PKG) + 1:] or PKG).visit(tree)
        ast.fix_missing_locations(tree)
        g = module.__dict__
        g['_symx_enter'] = _enter
        g['_symx_iterate'] = _iterate
        g['_symx_get'] = _get
        for k, f in arr.BUILTINS.items():
            g['_symx_' + k] = f
        exec(compile(tree, self.path, 'exec'), g)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            spec = importlib.machinery.ModuleSpec(name, _Loader(f, name),
                                                  origin=f, is_package=True)
            spec.submodule_search_locations = [p]
        elif os.path.isfile(p + '.py'):
            f = p + '.py'
            spec = importlib.machinery.ModuleSpec(name, _Loader(f, name),
                                                  origin=f)
        else:
            return None
        spec.has_location = True
        return spec


class _Inert(types.ModuleType):
    """matplotlib stand-in: any attribute, any call."""
    __path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = _Inert(self.__name__ + '.' + n)
        setattr(self, n, v)
        return v

    def __call__(self, *a, **k):
        return _Inert('x')


class Prange:
    hook = None


def _prange(*a):
    r = range(*[int(x) for x in a])
    if Prange.hook is not None:
        return Prange.hook(r)
    return r


def _mk_numba():
    m = types.ModuleType('numba')

    def jit(*a, **k):
        def deco(f):
            f.py_func = f
            f.symx_parallel = bool(k.get('parallel'))
            return f
        if a and callable(a[0]):
            return deco(a[0])
        return deco
    m.jit = m.njit = jit
    m.vectorize = m.guvectorize = jit
    m.prange = _prange
    m.__version__ = '0'
    return m


_loaded = None


def load(torch=None, cupy=None):
    """(Re)import the package from REPO; returns namespace of modules."""
    global _loaded
    sys.dont_write_bytecode = True
    for n in [n for n in sys.modules if n == PKG or n.startswith(PKG + '.')]:
        del sys.modules[n]
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
    sys.modules['numba'] = _mk_numba()
    for n in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.cm',
              'matplotlib.colors', 'matplotlib.animation', 'matplotlib.ticker'):
        sys.modules[n] = _Inert(n)
    sys.modules['pyfftw'] = None          # ImportError
    for n in ('torch', 'cupy'):
        m = dict(torch=torch, cupy=cupy)[n]
        sys.modules.pop(n, None)
        if m is not None:
            sys.modules[n] = m
    if torch is not None:
        sys.modules['torch.fft'] = torch.fft
    logging.disable(logging.CRITICAL)
    importlib.invalidate_caches()
    importlib.import_module(PKG)
    import pkgutil
    base = os.path.join(REPO, PKG)
    for root, dirs, files in os.walk(base):
        for f in files:
            if f.endswith('.py') and f != '__init__.py':
                rel = os.path.relpath(os.path.join(root, f), REPO)[:-3]
                name = rel.replace(os.sep, '.')
                if '.' in name:
                    try:
                        importlib.import_module(name)
                    except ImportError:
                        pass
    patch()
    _loaded = types.SimpleNamespace(**{
        n[len(PKG) + 1:].replace('.', '_') or 'root': m
        for n, m in sys.modules.items()
        if m is not None and (n == PKG or n.startswith(PKG + '.'))})
    return _loaded


def patch():
    import numpy as np
    import scipy.fft as sf
    fftfuncs = {}
    for mod in (sf, np.fft):
        for n in ('fft', 'ifft', 'rfft', 'irfft', 'fftshift', 'ifftshift'):
            fftfuncs[id(getattr(mod, n))] = arr.shim_fft(getattr(mod, n), n)
    # a second patch pass must also recognise numpy functions bound directly
    direct = {id(getattr(np, n)): getattr(arr.NP, n) for n in
              ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like',
               'empty_like', 'full_like', 'asarray', 'array', 'asanyarray')}
    for name, m in list(sys.modules.items()):
        if m is None or not (name == PKG or name.startswith(PKG + '.')):
            continue
        for k, v in list(vars(m).items()):
            if v is np:
                setattr(m, k, arr.NP)
            elif id(v) in fftfuncs:
                setattr(m, k, fftfuncs[id(v)])
            elif id(v) in direct:
                setattr(m, k, direct[id(v)])


def mod(name):
    return sys.modules[PKG + ('.' + name if name else '')]
