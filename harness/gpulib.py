# -*- coding: utf-8 -*-
"""GPU side without a GPU: a minimal `torch`/`cupy`, and two executors of the CUDA
kernel text that the library hands to `cupy.RawModule`:

  symbolic : the text is parsed (pycparser), turned into Python and run by the engine,
             one call per thread of the launched grid;
  replay   : the text is compiled by g++ with a host definition of the few CUDA names it
             uses, and run for every thread of the launched grid on guarded buffers.

Both see exactly the text, template values, grid, block, argument order and argument
types that the library produces.
"""
import contextlib
import ctypes
import hashlib
import os
import re
import subprocess
import sys
import tempfile
import types
import numpy as np

GUARD = 64          # guard elements on both sides of replay buffers


# ================================================================ C -> Python
_CUDA_LL = {'f': 0}


class CError(Exception):
    """The kernel text uses something this encoder does not know."""


class _Py:
    """One CUDA kernel (C subset) as Python source."""

    MATH = {'abs': 'abs', 'fabs': 'abs', 'fabsf': 'abs', 'log2': 'np.log2',
            'log2f': 'np.log2', 'log': 'np.log', 'logf': 'np.log', 'exp': 'np.exp',
            'expf': 'np.exp', 'sqrt': 'np.sqrt', 'sqrtf': 'np.sqrt',
            'round': '_rnd', 'roundf': '_rnd', 'rint': '_rnd', 'rintf': '_rnd',
            'floor': 'np.floor', 'floorf': 'np.floor', 'fmin': 'min',
            'fmax': 'max', 'fminf': 'min', 'fmaxf': 'max', 'min': 'min',
            'max': 'max', 'isinf': 'np.isinf', 'isnan': 'np.isnan',
            'isfinite': 'np.isfinite', 'hypot': '_hypot', 'hypotf': '_hypot'}

    def __init__(self, code):
        from pycparser import c_parser, c_ast
        self.A = c_ast
        code = re.sub(r'//[^\n]*', '', code)
        code = re.sub(r'/\*.*?\*/', '', code, flags=re.S)
        code = code.replace('extern "C"', '')
        for w in ('__global__', '__restrict__', '__device__', '__forceinline__'):
            code = re.sub(r'\b%s\b' % w, '', code)
        code = re.sub(r'\bbool\b', 'int', code)
        code = re.sub(r'\btrue\b', '1', code)
        code = re.sub(r'\bfalse\b', '0', code)
        code = re.sub(r'static_cast\s*<\s*(\w+)\s*>', r'(\1)', code)
        code = code.replace('std::', '').replace('INFINITY', '(1.0/0.0)')
        tree = c_parser.CParser().parse(code)
        fns = [e for e in tree.ext if isinstance(e, c_ast.FuncDef)]
        if len(fns) != 1:
            raise CError('%d functions' % len(fns))
        fn = fns[0]
        self.name = fn.decl.name
        self.types, self.params, self.n = {}, [], 0
        for p in fn.decl.type.args.params:
            dims, ty = [], p.type
            ptr = False
            while isinstance(ty, (c_ast.ArrayDecl, c_ast.PtrDecl)):
                if isinstance(ty, c_ast.PtrDecl):
                    ptr = True
                else:
                    dims.append(self.const(ty.dim))
                ty = ty.type
            base = ' '.join(ty.type.names)
            self.params.append((p.name, base, tuple(dims), ptr))
            self.types[p.name] = base
        out = []
        self.block(fn.body, out, 2)
        args = ', '.join(p[0] for p in self.params)
        self.src = ('@jit\ndef %s(_n, _ids, %s):\n    for _t in _threads(_n):\n'
                    '        blockIdx, threadIdx, blockDim, gridDim = _ids(_t)\n'
                    % (self.name, args)) + '\n'.join(out) + '\n'

    def const(self, e):
        return int(eval(self.expr(e)[0], {'_cdiv': lambda a, b: a // b}))

    # ---------------------------------------------------------- statements
    def block(self, s, out, ind):
        A = self.A
        n0 = len(out)
        for b in (s.block_items or []) if isinstance(s, A.Compound) else [s]:
            self.stmt(b, out, ind)
        if len(out) == n0:
            out.append('    ' * ind + 'pass')

    def conv(self, name, e, ty):
        """Implicit conversion on assignment to variable `name`."""
        if self.types.get(name) in ('int', 'long', 'unsigned int', 'size_t',
                                    'long long') and ty == 'f':
            return '_cint(%s)' % e
        return e

    def stmt(self, s, out, ind):
        A, pad = self.A, '    ' * ind
        if s is None or isinstance(s, A.EmptyStatement):
            return
        if isinstance(s, A.Compound):
            for b in s.block_items or []:
                self.stmt(b, out, ind)
        elif isinstance(s, A.DeclList):
            for d in s.decls:
                self.stmt(d, out, ind)
        elif isinstance(s, A.Decl):
            if not isinstance(s.type, A.TypeDecl):
                raise CError('declaration of %s' % s.name)
            self.types[s.name] = ' '.join(s.type.type.names)
            if s.init is not None:
                e, ty = self.expr(s.init)
                out.append(pad + '%s = %s' % (s.name, self.conv(s.name, e, ty)))
        elif isinstance(s, A.Assignment):
            self.assign(s.lvalue, s.op, *self.expr(s.rvalue), out, pad)
        elif isinstance(s, A.UnaryOp) and s.op in ('++', 'p++', '--', 'p--'):
            self.assign(s.expr, '+=' if '+' in s.op else '-=', '1', 'i', out, pad)
        elif isinstance(s, A.If):
            out.append(pad + 'if %s:' % self.expr(s.cond)[0])
            self.block(s.iftrue, out, ind + 1)
            if s.iffalse is not None:
                out.append(pad + 'else:')
                self.block(s.iffalse, out, ind + 1)
        elif isinstance(s, A.For):
            self.loop(s, out, ind)
        elif isinstance(s, A.While):
            out.append(pad + 'while %s:' % self.expr(s.cond)[0])
            self.block(s.stmt, out, ind + 1)
        elif isinstance(s, A.Return):
            if self.depth:
                raise CError('return inside a loop')
            out.append(pad + 'continue')
        elif isinstance(s, A.Continue):
            out.append(pad + 'continue')
        elif isinstance(s, A.Break):
            out.append(pad + 'break')
        elif isinstance(s, A.FuncCall):
            nm = s.name.name
            if nm == 'atomicAdd':
                a, v = s.args.exprs
                if isinstance(a, A.UnaryOp) and a.op == '&':
                    self.assign(a.expr, '+=', *self.expr(v), out, pad)
                    return
            if nm in ('__syncthreads',):
                raise CError(nm)
            out.append(pad + self.expr(s)[0])
        else:
            raise CError(type(s).__name__)

    depth = 0

    def assign(self, lv, op, e, ty, out, pad):
        A = self.A
        if isinstance(lv, A.ID):
            if op == '=':
                out.append(pad + '%s = %s' % (lv.name, self.conv(lv.name, e, ty)))
            elif op in ('+=', '-=', '*=', '/='):
                e2, t2 = self.bin(op[0], lv.name, self.kind(lv.name), e, ty)
                out.append(pad + '%s = %s' % (lv.name, self.conv(lv.name, e2, t2)))
            else:
                raise CError(op)
            return
        base, idx = self.ref(lv)
        if op not in ('=', '+=', '-=', '*=', '/='):
            raise CError(op)
        out.append(pad + '_chk(%s, %s)' % (base, ', '.join(idx)))
        out.append(pad + '%s[%s] %s %s' % (base, ', '.join(idx), op, e))

    def loop(self, s, out, ind):
        A, pad = self.A, '    ' * ind
        init = s.init
        if isinstance(init, A.DeclList) and len(init.decls) == 1:
            var, start = init.decls[0].name, init.decls[0].init
            self.types[var] = ' '.join(init.decls[0].type.type.names)
        elif isinstance(init, A.Assignment) and init.op == '=' and \
                isinstance(init.lvalue, A.ID):
            var, start = init.lvalue.name, init.rvalue
        else:
            raise CError('for')
        step = None
        n = s.next
        if isinstance(n, A.UnaryOp) and n.op in ('++', 'p++'):
            step = '1'
        elif isinstance(n, A.UnaryOp) and n.op in ('--', 'p--'):
            step = '-1'
        elif isinstance(n, A.Assignment) and n.op in ('+=', '-='):
            step = ('-' if n.op[0] == '-' else '') + '(%s)' % self.expr(n.rvalue)[0]
        c = s.cond
        if step is None or not isinstance(c, A.BinaryOp) or \
                not isinstance(c.left, A.ID) or c.left.name != var or \
                c.op not in ('<', '<=', '>', '>=', '!='):
            raise CError('for')
        stop = self.expr(c.right)[0]
        if c.op == '<=':
            stop = '(%s) + 1' % stop
        elif c.op == '>=':
            stop = '(%s) - 1' % stop
        out.append(pad + 'for %s in range(%s, %s, %s):' % (
            var, self.expr(start)[0], stop, step))
        self.depth += 1
        self.block(s.stmt, out, ind + 1)
        self.depth -= 1

    # --------------------------------------------------------- expressions
    def ref(self, e):
        """Array element: name and index expressions."""
        A = self.A
        idx = []
        while isinstance(e, A.ArrayRef):
            ie, ty = self.expr(e.subscript)
            if ty == 'f':
                raise CError('non-integer index')
            idx.append(ie)
            e = e.name
        if isinstance(e, A.UnaryOp) and e.op == '*' and not idx and \
                isinstance(e.expr, A.ID):
            return e.expr.name, ['0']
        if not isinstance(e, A.ID):
            raise CError('reference')
        return e.name, idx[::-1]

    def kind(self, name):
        t = self.types.get(name, 'double')
        return 'f' if t in ('double', 'float') else 'i'

    def bin(self, op, a, ta, b, tb):
        ty = 'f' if 'f' in (ta, tb) else 'i'
        if op == '/':
            if ty == 'i':
                return '_cdiv(%s, %s)' % (a, b), 'i'
            return '_fdiv(%s, %s)' % (a, b), 'f'
        if op == '%':
            return '_cmod(%s, %s)' % (a, b), 'i'
        return '(%s %s %s)' % (a, op, b), ty

    def expr(self, e):
        A = self.A
        if isinstance(e, A.Constant):
            v = e.value
            if e.type in ('int', 'long int', 'unsigned int'):
                return v.rstrip('uUlL'), 'i'
            return repr(float(v.rstrip('fFlL'))), 'f'
        if isinstance(e, A.ID):
            return e.name, self.kind(e.name)
        if isinstance(e, A.StructRef):
            if e.name.name not in ('blockIdx', 'threadIdx', 'blockDim', 'gridDim'):
                raise CError('struct')
            return '%s.%s' % (e.name.name, e.field.name), 'i'
        if isinstance(e, A.ArrayRef):
            base, idx = self.ref(e)
            return '_ld(%s, %s)' % (base, ', '.join(idx)), self.kind(base)
        if isinstance(e, A.Cast):
            v, ty = self.expr(e.expr)
            to = ' '.join(e.to_type.type.type.names)
            if to in ('double', 'float'):
                return v, 'f'
            if to in ('int', 'long', 'long long'):
                return ('_cint(%s)' % v if ty == 'f' else v), 'i'
            raise CError('cast to ' + to)
        if isinstance(e, A.UnaryOp):
            if e.op == '*':
                base, idx = self.ref(e)
                return '_ld(%s, %s)' % (base, idx[0]), self.kind(base)
            v, ty = self.expr(e.expr)
            if e.op == '!':
                return '(not %s)' % v, 'i'
            if e.op in ('-', '+'):
                return '(%s%s)' % (e.op, v), ty
            raise CError('operator ' + e.op)
        if isinstance(e, A.BinaryOp):
            a, ta = self.expr(e.left)
            b, tb = self.expr(e.right)
            if e.op in ('&&', '||'):
                return '(%s %s %s)' % (a, 'and' if e.op == '&&' else 'or', b), 'i'
            if e.op in ('<', '<=', '>', '>=', '==', '!='):
                return '(%s %s %s)' % (a, e.op, b), 'i'
            if e.op in ('+', '-', '*', '/', '%'):
                return self.bin(e.op, a, ta, b, tb)
            raise CError('operator ' + e.op)
        if isinstance(e, A.TernaryOp):
            c = self.expr(e.cond)[0]
            a, ta = self.expr(e.iftrue)
            b, tb = self.expr(e.iffalse)
            return '(%s if %s else %s)' % (a, c, b), \
                'f' if 'f' in (ta, tb) else 'i'
        if isinstance(e, A.FuncCall):
            nm = e.name.name
            args = [self.expr(a) for a in (e.args.exprs if e.args else [])]
            vals = ', '.join(a[0] for a in args)
            if nm in ('norm', 'normf'):
                return '_norm(%s)' % vals, 'f'
            if nm in self.MATH:
                ty = 'f'
                if nm in ('abs', 'min', 'max'):
                    ty = 'f' if any(a[1] == 'f' for a in args) else 'i'
                elif nm.startswith('is'):
                    ty = 'i'
                return '%s(%s)' % (self.MATH[nm], vals), ty
            raise CError('function ' + nm)
        raise CError(type(e).__name__)


class _D3:
    def __init__(self, v):
        v = tuple(v) + (1,) * (3 - len(v))
        self.x, self.y, self.z = v


# ================================================================ torch / cupy
class _DT:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'torch.' + self.name
    is_complex = property(lambda s: s.name.startswith('complex'))
    is_floating_point = property(lambda s: s.name.startswith('float'))


_DTS = {n: _DT(n) for n in ('float32', 'float64', 'complex64', 'complex128', 'int64',
                            'int32', 'bool')}


def _ndt(d):
    """numpy dtype of the elements of the storage."""
    return np.dtype({'complex64': 'float32', 'complex128': 'float64'}.get(
        d.name, d.name))


_RANK = {'bool': 0, 'int32': 1, 'int64': 2, 'float32': 3, 'float64': 4,
         'complex64': 5, 'complex128': 6}


def _promote(a, b):
    """torch dtype promotion between tensors with dimensions."""
    x, y = sorted((a.name, b.name), key=_RANK.get)
    if y == 'complex64' and x == 'float64':
        return _DTS['complex128']
    return _DTS[y]


class Ptr:
    def __init__(self, tensor):
        self.t = tensor


class Tensor:
    """Strided tensor; complex ones are stored as (..., 2) reals."""
    __array_priority__ = 1000
    __array_ufunc__ = None
    X = None            # array module of the run

    def __init__(self, s, dt):
        self.s, self.dt = s, dt

    # -- conversions
    @classmethod
    def of(cls, a, dt=None):
        """Copy of an array."""
        if isinstance(a, Tensor):
            return a.to(dtype=dt) if dt is not None and dt is not a.dt else \
                Tensor(a.s.copy(), a.dt)
        a = cls.X.asarray(a)
        have = _DTS[str(np.dtype(a.dtype))] if str(np.dtype(a.dtype)) in _DTS \
            else _DTS['float64']
        dt = dt or have
        if dt.is_complex:
            re, im = (a.real, a.imag) if have.is_complex else (a, a * 0.)
            s = cls.alloc(tuple(a.shape) + (2,), _ndt(dt))
            s[..., 0] = re
            s[..., 1] = im
            return cls(s, dt)
        s = cls.alloc(tuple(a.shape), _ndt(dt))
        s[...] = a.real if have.is_complex else a
        return cls(s, dt)

    @classmethod
    def alloc(cls, shape, nd, fill=0):
        """Freshly allocated memory, guarded on both sides in the replay."""
        shape = tuple(int(q) for q in shape)
        n = int(np.prod(shape)) if shape else 1
        buf = cls.X.full((n + 2 * GUARD,), cls.guard, dtype=nd)
        v = buf[GUARD:GUARD + n].reshape(shape)
        v[...] = fill
        if np.dtype(nd).kind != 'b':
            cls.bufs.append((buf, n))
        return v
    guard = 77
    bufs = []

    def arr(self):
        """As array (complex for complex tensors)."""
        if self.dt.is_complex:
            return self.s[..., 0] + 1j * self.s[..., 1]
        return self.s

    def cpu(self):
        return self

    def numpy(self):
        a = self.arr()
        return a if self.dt.is_complex else a

    def to(self, dtype=None, device=None, **k):
        if isinstance(dtype, str):
            return self
        dtype = dtype or self.dt
        return self if dtype is self.dt else Tensor.of(self.arr(), dtype)

    def clone(self):
        return Tensor.of(self)

    detach = contiguous_ = lambda self: self

    def contiguous(self):
        return self if self.is_contiguous() else Tensor.of(self)

    def is_contiguous(self):
        return _raw(self.s).flags.c_contiguous

    # -- attributes
    @property
    def shape(self):
        return tuple(self.s.shape[:-1] if self.dt.is_complex else self.s.shape)

    def size(self, i=None):
        return self.shape if i is None else self.shape[i]

    dtype = property(lambda s: s.dt)
    device = property(lambda s: 'cuda:0')
    ndim = property(lambda s: len(s.shape))

    def dim(self):
        return self.ndim

    def numel(self):
        return int(np.prod(self.shape)) if self.shape else 1

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of a 0-d tensor')
        return self.shape[0]

    def data_ptr(self):
        return Ptr(self)

    def stride(self):
        s = _raw(self.s)
        return tuple(q // s.itemsize for q in s.strides)

    def is_complex(self):
        return self.dt.is_complex

    def is_floating_point(self):
        return self.dt.is_floating_point

    # -- indexing
    def _ix(self, i):
        i = i if isinstance(i, tuple) else (i,)
        i = tuple(q.arr() if isinstance(q, Tensor) else q for q in i)
        if any(isinstance(q, slice) and q.step is not None and q.step < 0
               for q in i):
            raise ValueError('step must be greater than zero')
        if self.dt.is_complex and any(q is Ellipsis for q in i):
            i = i + (slice(None),)
        return i

    def __getitem__(self, i):
        s = self.s[self._ix(i)]
        if not isinstance(s, np.ndarray):
            s = self.X.asarray(s)
        return Tensor(s, self.dt)

    def __setitem__(self, i, v):
        if isinstance(v, Tensor):
            v = v.to(dtype=self.dt).s
        elif self.dt.is_complex:
            v = Tensor.of(v, self.dt).s
        self.s[self._ix(i)] = v

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    # -- shape
    def squeeze(self, dim=None):
        keep = [n for i, n in enumerate(self.shape)
                if n != 1 or (dim is not None and i != dim % self.ndim)]
        return self.reshape(*keep)

    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        if self.dt.is_complex:
            sh = tuple(sh) + (2,)
        return Tensor(self.s.reshape(tuple(sh)), self.dt)
    view = reshape

    def transpose(self, a, b):
        n = self.ndim
        p = list(range(n))
        p[a % n], p[b % n] = p[b % n], p[a % n]
        if self.dt.is_complex:
            p.append(n)
        return Tensor(self.s.transpose(p), self.dt)

    def new_zeros(self, shape, dtype=None):
        return torch_zeros(shape, dtype=dtype or self.dt)

    def flip(self, *dims):
        dims = dims[0] if isinstance(dims[0], (tuple, list)) else dims
        i = [slice(None)] * self.s.ndim
        for d in dims:
            i[d % self.ndim] = slice(None, None, -1)
        return Tensor.of(Tensor(self.s[tuple(i)].copy(), self.dt))

    # -- values
    def item(self):
        a = self.arr()
        return a.reshape(-1)[0] if isinstance(a, np.ndarray) else a

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __bool__(self):
        return bool(self.item())

    def tolist(self):
        return self.arr().tolist()

    def _un(self, f, dt=None):
        return Tensor.of(f(self.arr()), dt)

    def min(self):
        return Tensor.of(self.arr().min(), self.dt)

    def max(self):
        return Tensor.of(self.arr().max(), self.dt)

    def sum(self, dim=None, axis=None):
        d = axis if dim is None else dim
        a = self.arr()
        return Tensor.of(a.sum() if d is None else a.sum(axis=d), self.dt)

    def mean(self, dim=None, axis=None):
        d = axis if dim is None else dim
        a = self.arr()
        return Tensor.of(a.mean() if d is None else a.mean(axis=d), self.dt)

    def abs(self):
        return Tensor.of(abs(self.arr()), _DTS[_ndt(self.dt).name])
    __abs__ = abs

    def __neg__(self):
        return self._un(lambda a: -a, self.dt)

    @property
    def real(self):
        return Tensor(self.s[..., 0], _DTS[_ndt(self.dt).name]) \
            if self.dt.is_complex else self

    @property
    def imag(self):
        return Tensor(self.s[..., 1], _DTS[_ndt(self.dt).name])

    def _bin(self, o, f, rev=False, cmp=False):
        a = self.arr()
        if isinstance(o, Tensor):
            b = o.arr()
            dt = self.dt if not o.shape and self.shape and \
                (_RANK[o.dt.name] > 4) == (_RANK[self.dt.name] > 4) else \
                _promote(self.dt, o.dt)
        elif isinstance(o, np.ndarray) and o.ndim:
            raise TypeError('unsupported operand: Tensor and ndarray')
        else:
            b = o
            dt = self.dt
            if isinstance(o, complex) and not dt.is_complex:
                dt = _DTS['complex64' if dt.name == 'float32' else 'complex128']
            if not dt.is_floating_point and not dt.is_complex and \
                    isinstance(o, float):
                dt = _DTS['float32']
        r = f(b, a) if rev else f(a, b)
        return Tensor.of(r, _DTS['bool'] if cmp else dt)

    def __array__(self, *a, **k):
        raise TypeError("can't convert cuda:0 device type tensor to numpy")


def _raw(s):
    return s.raw() if hasattr(s, 'raw') else s


def _mkops():
    import operator as op
    for n, f in (('add', op.add), ('sub', op.sub), ('mul', op.mul),
                 ('truediv', op.truediv), ('pow', op.pow)):
        setattr(Tensor, '__%s__' % n, lambda s, o, f=f: s._bin(o, f))
        setattr(Tensor, '__r%s__' % n, lambda s, o, f=f: s._bin(o, f, True))
    for n, f in (('lt', op.lt), ('le', op.le), ('gt', op.gt), ('ge', op.ge),
                 ('eq', op.eq), ('ne', op.ne), ('and', op.and_), ('or', op.or_)):
        setattr(Tensor, '__%s__' % n, lambda s, o, f=f: s._bin(o, f, cmp=True))

    def inplace(f):
        def g(s, o):
            s[...] = s._bin(o, f)
            return s
        return g
    for n, f in (('iadd', op.add), ('isub', op.sub), ('imul', op.mul),
                 ('itruediv', op.truediv)):
        setattr(Tensor, '__%s__' % n, inplace(f))
    Tensor.__hash__ = object.__hash__


_mkops()


def torch_zeros(*shape, dtype=None, device=None):
    shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) \
        else shape
    dt = dtype or _DTS['float32']
    return Tensor(Tensor.alloc(tuple(shape) + ((2,) if dt.is_complex else ()),
                               _ndt(dt)), dt)


class FakeTorch(types.ModuleType):
    def __init__(self):
        super().__init__('torch')
        self.Tensor, self.dtype = Tensor, _DT
        for n, d in _DTS.items():
            setattr(self, n, d)
        self.cuda = types.SimpleNamespace(
            current_stream=lambda: types.SimpleNamespace(cuda_stream=0))
        for n in ('exp', 'log', 'sqrt', 'sign', 'cos', 'sin'):
            setattr(self, n, lambda x, n=n: x._un(getattr(Tensor.X, n), x.dt))
        self.nn = types.SimpleNamespace(functional=types.SimpleNamespace(
            pad=self._pad))

    zeros = staticmethod(torch_zeros)

    def ones(self, *shape, dtype=None, device=None):
        z = torch_zeros(*shape, dtype=dtype)
        (z.s if not z.dt.is_complex else z.s[..., 0])[...] = 1.
        return z

    def full(self, size, fill_value, dtype=None, device=None):
        if isinstance(fill_value, Tensor):
            fill_value = fill_value.item()
        if dtype is None:
            dtype = _DTS['float32']
        return Tensor(Tensor.alloc(tuple(size), _ndt(dtype), fill_value), dtype)

    def as_tensor(self, x, dtype=None, device=None):
        if isinstance(x, Tensor):
            return x.to(dtype=dtype)
        if isinstance(x, (float, int)) and not isinstance(x, bool) and \
                dtype is None and isinstance(x, float):
            dtype = _DTS['float32']
        if isinstance(x, (list, tuple)) and any(isinstance(q, Tensor) for q in x):
            x = [q.item() if isinstance(q, Tensor) else q for q in x]
        return Tensor.of(x, dtype)
    asarray = as_tensor

    def tensor(self, x, dtype=None, device=None):
        return Tensor.of(x if not isinstance(x, Tensor) else x.arr(), dtype)

    def view_as_real(self, x):
        if not x.dt.is_complex:
            raise RuntimeError('view_as_real is only supported for complex tensors')
        return Tensor(x.s, _DTS[_ndt(x.dt).name])

    def view_as_complex(self, x):
        if x.dt.is_complex or x.shape[-1] != 2:
            raise RuntimeError('Tensor must have a last dimension of size 2')
        return Tensor(x.s, _DTS['complex64' if x.dt.name == 'float32' else
                                'complex128'])

    def is_tensor(self, x):
        return isinstance(x, Tensor)

    def is_complex(self, x):
        return x.dt.is_complex

    def flip(self, x, dims):
        return x.flip(dims)

    def abs(self, x):
        return x.abs()

    def sum(self, x, dim=None, axis=None):
        return x.sum(dim, axis)

    def mean(self, x, dim=None, axis=None):
        return x.mean(dim, axis)

    def where(self, c, a, b):
        g = lambda v: v.arr() if isinstance(v, Tensor) else v
        r = Tensor.X.where(g(c), g(a), g(b))
        dt = a.dt if isinstance(a, Tensor) else b.dt
        return Tensor.of(r, dt)

    def clamp(self, x, min=None, max=None):
        return Tensor.of(Tensor.X.clip(x.arr(), min, max), x.dt)

    def atleast_1d(self, x):
        return x if x.ndim else x.reshape(1)

    def allclose(self, a, b):
        return bool(np.allclose(a.arr(), b.arr()))

    def stack(self, xs, dim=0):
        assert dim == 0
        return Tensor(Tensor.X.asarray(np.stack([x.s for x in xs])), xs[0].dt)

    def vstack(self, xs):
        return Tensor(Tensor.X.asarray(np.concatenate([x.s for x in xs])),
                      xs[0].dt)

    def cat(self, xs, dim=0):
        d = dim if dim >= 0 else dim + xs[0].ndim
        return Tensor(np.concatenate([x.s for x in xs], axis=d), xs[0].dt)

    def linspace(self, a, b, n, device=None, dtype=None):
        dt = dtype or _DTS['float32']
        r = torch_zeros((n,), dtype=dt)
        for i in range(n):
            r.s[i] = a + (b - a) * (i / (n - 1)) if n > 1 else a
        return r

    def arange(self, a, b=None, dtype=None, device=None):
        if b is None:
            a, b = 0, a
        return Tensor.of(np.arange(a, b), dtype)

    def _pad(self, x, pad, mode='constant', value=0):
        assert mode in ('constant', 'reflect'), mode
        l, r = pad
        if mode == 'reflect' and max(l, r) >= x.shape[-1]:
            raise RuntimeError('Padding size should be less than the input')
        a = x.arr()
        w = [(0, 0)] * (a.ndim - 1) + [(l, r)]
        return Tensor.of(np.pad(a, w, mode=mode), x.dt)


def _tfft(name):
    def f(x, n=None, dim=-1, **k):
        a = x.arr()
        F = getattr(Tensor.X.fft, name)
        big = x.dt.name in ('float64', 'complex128')
        if name.endswith('shift'):
            return Tensor.of(F(a, axes=dim), x.dt)
        if name == 'rfft' and x.dt.is_complex:
            raise RuntimeError('rfft expects a real input tensor')
        r = F(a, axis=dim) if n is None else F(a, n=n, axis=dim)
        if name == 'irfft':
            return Tensor.of(r, _DTS['float64' if big else 'float32'])
        return Tensor.of(r, _DTS['complex128' if big else 'complex64'])
    return f


TFFT = {'t' + n: _tfft(n) for n in ('fft', 'ifft', 'rfft', 'irfft', 'fftshift',
                                    'ifftshift')}


class FakeCupy(types.ModuleType):
    def __init__(self, rt):
        super().__init__('cupy')
        self.rt = rt

    def memoize(self, *a, **k):
        return lambda f: f

    def asarray(self, x, dtype=None):
        if isinstance(x, Tensor):
            raise TypeError('cupy array of a torch tensor')
        nd = np.dtype(dtype or 'float64')
        s = Tensor.alloc((), nd, x)
        return CArr(Tensor(s, _DTS[nd.name]))
    array = asarray

    def RawModule(self, code=None, **k):
        return types.SimpleNamespace(
            get_function=lambda name: Kernel(code, name, self.rt))


class CArr:
    """cupy.ndarray (0-d): passed to kernels as a pointer."""
    def __init__(self, t):
        self.t = t


# ================================================================ execution
_LIBS = {}

_HOST = r'''
#include <cmath>
#include <cstdint>
#include <climits>
#include <utility>
struct D3 { int x, y, z; };
static D3 blockIdx, threadIdx, blockDim, gridDim;
template <class T> struct Rd { T v; operator T() const { return v; }
  explicit operator int() const { return std::isnan(v) ? 0 :
     v >= 2147483647.0 ? INT_MAX : v <= -2147483648.0 ? INT_MIN : (int)v; } };
static inline Rd<double> round_(double x) { return Rd<double>{std::nearbyint(x)}; }
static inline Rd<float> round_(float x) { return Rd<float>{std::nearbyintf(x)}; }
#define round round_
#define roundf round_
#define rint round_
#define rintf round_
static inline double norm(int n, const double *p) {
  double s = 0; for (int i = 0; i < n; ++i) s += p[i]*p[i]; return std::sqrt(s); }
static inline float normf(int n, const float *p) {
  float s = 0; for (int i = 0; i < n; ++i) s += p[i]*p[i]; return std::sqrt(s); }
template <class T, class U> T atomicAdd(T *p, U v) { T o = *p; *p += v; return o; }
using std::abs; using std::isinf; using std::isnan; using std::isfinite;
template <class T> T min(T a, T b) { return b < a ? b : a; }
template <class T> T max(T a, T b) { return a < b ? b : a; }
#define __global__
#define __device__
#define __forceinline__ inline
#define __restrict__
%s
template <class... A, std::size_t... I>
static void call(void (*f)(A...), void **a, std::index_sequence<I...>) {
  f(*reinterpret_cast<A*>(a[I])...); }
template <class... A> static int arity(void (*)(A...)) { return sizeof...(A); }
template <class... A> static void call(void (*f)(A...), void **a) {
  call(f, a, std::index_sequence_for<A...>{}); }
template <class A> static int sz() { return (int)sizeof(A); }
template <class... A> static void sizes(void (*)(A...), int *o) {
  int v[] = {sz<A>()..., 0}; for (unsigned i = 0; i < sizeof...(A); ++i) o[i] = v[i]; }
extern "C" int run_arity(int *o) { sizes(%s, o); return arity(%s); }
extern "C" void run_kernel(int *g, int *b, void **a) {
  gridDim = {g[0], g[1], g[2]}; blockDim = {b[0], b[1], b[2]};
  for (int z = 0; z < g[2]; ++z) for (int y = 0; y < g[1]; ++y)
  for (int x = 0; x < g[0]; ++x) { blockIdx = {x, y, z};
    for (int c = 0; c < b[2]; ++c) for (int d = 0; d < b[1]; ++d)
    for (int e = 0; e < b[0]; ++e) { threadIdx = {e, d, c}; call(%s, a); } } }
'''


def _lib(code, name):
    key = hashlib.sha1((code + name).encode()).hexdigest()
    if key not in _LIBS:
        d = tempfile.mkdtemp(prefix='gpulib')
        src = os.path.join(d, 'k.cpp')
        with open(src, 'w') as f:
            f.write(_HOST % (code, name, name, name))
        so = os.path.join(d, 'k.so')
        r = subprocess.run(['g++', '-O1', '-fPIC', '-shared', '-w', '-o', so, src],
                           capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('kernel does not compile: ' + r.stderr[:600])
        _LIBS[key] = ctypes.CDLL(so)
        for f in (src, so):
            os.unlink(f)
        os.rmdir(d)
    return _LIBS[key]


class Runtime:
    """One per harness run: executes kernels, checks memory discipline."""

    def __init__(self, t, sched='asc'):
        self.t, self.sched, self.launches = t, sched, []

    # ------------------------------------------------------------ replay
    def run_c(self, code, name, grid, block, args):
        lib = _lib(code, name)
        szs = (ctypes.c_int * 64)()
        n = lib.run_arity(szs)
        if n != len(args):
            self.t.false('kernel %s takes %d arguments, got %d' % (
                name, n, len(args)))
            return
        keep, arr = [], (ctypes.c_void_p * n)()
        for i, a in enumerate(args):
            if isinstance(a, (Ptr, CArr)):
                v = ctypes.c_void_p(a.t.s.ctypes.data)
            elif isinstance(a, (bool, np.bool_)):
                v = ctypes.c_longlong(int(a))
            elif isinstance(a, (int, np.integer)):
                v = ctypes.c_longlong(int(a))
            elif isinstance(a, np.float32):
                v = (ctypes.c_float * 2)(float(a), 0.)
            else:
                v = ctypes.c_double(float(a))
            keep.append(v)
            arr[i] = ctypes.cast(ctypes.pointer(v), ctypes.c_void_p)
        lib.run_kernel((ctypes.c_int * 3)(*grid), (ctypes.c_int * 3)(*block), arr)
        for buf, m in Tensor.bufs:
            g = np.concatenate([buf[:GUARD], buf[GUARD + m:]])
            self.t.true(bool(np.all(g == Tensor.guard)),
                        'kernel %s writes outside its arrays' % name)

    # ---------------------------------------------------------- symbolic
    def run_sym(self, code, name, grid, block, args):
        t = self.t
        k = _Py(code)
        if k.name != name:
            raise CError('kernel name')
        if len(args) != len(k.params):
            t.false('kernel %s takes %d arguments, got %d' % (
                name, len(k.params), len(args)))
            return
        vals = []
        for a, (pn, base, dims, ptr) in zip(args, k.params):
            if isinstance(a, (Ptr, CArr)):
                t.true(bool(dims) or ptr, 'argument %s of %s is a pointer' % (
                    pn, name))
                have = {'float32': 'float', 'float64': 'double'}.get(
                    a.t.dt.name if not a.t.dt.is_complex else
                    _ndt(a.t.dt).name, '?')
                t.true(have == base, 'element type of argument %s of %s' % (
                    pn, name))
                vals.append(self.memory(a.t, dims, pn, name))
                continue
            t.true(not dims and not ptr, 'argument %s of %s is a value' % (
                pn, name))
            if isinstance(a, np.float32):
                ok = base == 'float'
            elif isinstance(a, (bool, np.bool_, int, np.integer)):
                ok = base in ('int', 'long', 'long long', 'size_t',
                              'unsigned int')
            else:
                ok = base == 'double'
            t.true(ok, 'type of argument %s of %s' % (pn, name))
            vals.append(int(a) if isinstance(a, (bool, np.bool_)) else a)
        ids = []
        G, B = _D3(grid), _D3(block)
        for by in range(G.y):
            for bx in range(G.x):
                for ty in range(B.y):
                    for tx in range(B.x):
                        ids.append((_D3((bx, by)), _D3((tx, ty)), B, G))
        if G.z * B.z != 1:
            raise CError('3-D grid')
        fn = self.build(k)
        fn(len(ids), ids.__getitem__, *vals)

    def memory(self, ten, dims, pn, name):
        """The memory behind a pointer as an array of the declared shape."""
        s = _raw(ten.s)
        n = int(np.prod(dims)) if dims else s.size
        if s.flags.c_contiguous and s.size == n:
            return ten.s.reshape(dims or (n,))
        base = s
        while isinstance(base.base, np.ndarray):
            base = base.base
        base = base.reshape(-1)
        off = (s.__array_interface__['data'][0] -
               base.__array_interface__['data'][0]) // base.itemsize
        if off + n > base.size:
            self.t.false('argument %s of %s is larger than its memory' % (
                pn, name))
            raise CError('memory')
        v = base[off:off + n].reshape(dims or (n,))
        return type(ten.s)(v, ten.s.dtype) if hasattr(ten.s, 'raw') else v

    def build(self, k):
        import ast
        from symx import load, arr, core
        tree = load._Rewrite('gpu').visit(ast.parse(k.src))
        ast.fix_missing_locations(tree)
        t = self.t

        def chk(a, *idx):
            for i, n in zip(idx, a.shape):
                if isinstance(i, (int, np.integer)):
                    if not 0 <= i < n:
                        raise IndexError('kernel %s: index %d of %d' % (
                            k.name, i, n))
                else:
                    if not bool((i >= 0) & (i < n)):
                        raise IndexError('kernel %s: index out of bounds' %
                                         k.name)

        def ld(a, *idx):
            chk(a, *idx)
            return a[idx if len(idx) > 1 else idx[0]]

        def norm(n, p):
            return np.sqrt(sum((p[i] * p[i] for i in range(1, n)), p[0] * p[0]))

        def cint(x):
            """Float to int conversion: saturating."""
            if isinstance(x, (float, np.floating)):
                return 0 if x != x else int(max(min(x, 2.**31 - 1), -2.**31))
            if not core.is_sym(x):
                return int(x)
            if bool(np.isinf(x)):
                return -2**31 if bool(x < 0) else 2**31 - 1
            return arr.b_int(x)

        def fdiv(a, b):
            if isinstance(b, (int, float)) and b == 0 and isinstance(
                    a, (int, float)):
                with np.errstate(all="ignore"):
                    return np.float64(a) / np.float64(b)
            return a / b

        def threads(n):
            if self.sched == 'desc':
                return range(n - 1, -1, -1)
            if self.sched == 'asc':
                return range(n)
            from harness import schedlib
            return schedlib.overlap(t, range(n), sys._getframe(1),
                                    self.sched == 'overlap-rev')
        g = dict(np=arr.NP, jit=lambda f: f, _threads=threads, _chk=chk, _ld=ld,
                 _norm=norm, _cint=cint, _fdiv=fdiv, _rnd=arr.b_round,
                 _cdiv=lambda a, b: int(a / b) if isinstance(a, int) else a // b,
                 _cmod=lambda a, b: a - b * int(a / b),
                 _hypot=lambda a, b: np.sqrt(a * a + b * b),
                 _symx_enter=load._enter, _symx_iterate=load._iterate,
                 _symx_get=load._get)
        for n, f in arr.BUILTINS.items():
            g['_symx_' + n] = f
        exec(compile(tree, '<kernel %s>' % k.name, 'exec'), g)
        return g[k.name]


class Kernel:
    def __init__(self, code, name, rt):
        self.code, self.name, self.rt = code, name, rt

    def __call__(self, grid=None, block=None, args=(), stream=None, **k):
        rt = self.rt
        grid = tuple(int(q) for q in grid) + (1,) * (3 - len(grid))
        block = tuple(int(q) for q in block) + (1,) * (3 - len(block))
        rt.launches.append(self.name)
        if int(np.prod(block)) > 1024 or min(grid) < 1:
            rt.t.false('kernel %s: launch configuration %s %s' % (
                self.name, grid, block))
        f = rt.run_sym if rt.sym else rt.run_c
        f(self.code, self.name, grid, block, list(args))


@contextlib.contextmanager
def gpu(t, sched='asc', use=True):
    """Make torch / cupy stand-ins visible to the package; SSQ_GPU=1 if `use`."""
    from harness import util as U
    rt = Runtime(t, sched)
    try:
        from symx import arr, core
        rt.sym = core.ENG is not None
    except ImportError:
        rt.sym = False
    if rt.sym:
        Tensor.X = arr.NP
    else:
        Tensor.X = np
    Tensor.bufs = []
    ft = FakeTorch()
    fc = FakeCupy(rt)
    saved = {n: sys.modules.get(n, 0) for n in ('torch', 'cupy')}
    with contextlib.ExitStack() as st:
        for name, m in list(sys.modules.items()):
            if m is None or not (name == 'ssqueezepy' or
                                 name.startswith('ssqueezepy.')):
                continue
            for attr, v in (('torch', ft), ('cp', fc), ('cupy', fc)):
                if attr in vars(m):
                    st.enter_context(U.patched(m, **{attr: v}))
        sys.modules['torch'], sys.modules['cupy'] = ft, fc
        st.enter_context(U.env(SSQ_GPU='1' if use else '0'))
        fu = t.mod('utils.fft_utils')
        had = {n: vars(fu).get(n, 0) for n in TFFT}
        vars(fu).update(TFFT)
        try:
            yield rt
        finally:
            for n, v in had.items():
                if v == 0:
                    vars(fu).pop(n, None)
                else:
                    setattr(fu, n, v)
            for n, v in saved.items():
                if v == 0:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = v


def tensor(t, a):
    return Tensor.of(a)


def host(x):
    return x.numpy() if isinstance(x, Tensor) else x
