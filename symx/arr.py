# -*- coding: utf-8 -*-
"""numpy front end: symbolic ndarray subclass, ufunc / function dispatch, `np` shim."""
import builtins
import math
import types
import numpy as np
from . import core
from .core import (Num, SBool, Sym, Unsupported, as_num, ite, is_sym, mkbool,
                   bterm, zand, zor, znot)

OBJ = np.dtype(object)
_nd = np.ndarray


# ================================================================ casting
def cast_scalar(x, dt):
    """Convert a scalar (symbolic or not) to logical dtype dt."""
    k = dt.kind
    if not is_sym(x):
        if isinstance(x, _nd):
            x = x.item() if x.dtype == OBJ or x.size == 1 else x[()]
            return cast_scalar(x, dt)
        if k in 'fiub' and isinstance(x, (complex, np.complexfloating)):
            x = x.real
        if k in 'iu' and isinstance(x, (float, np.floating)) and \
                (x != x or math.isinf(x)):
            return dt.type(np.iinfo(dt).min)
        if k in 'iu':
            return dt.type(int(x))
        if k == 'O':
            return x
        # idealised reals: keep full precision irrespective of the tag
        return {'f': np.float64, 'c': np.complex128, 'b': np.bool_}.get(
            k, dt.type)(x)
    if k == 'b':
        if isinstance(x, SBool):
            return x
        return x != 0
    if isinstance(x, SBool):
        x = x.num()
    if k in 'iu':
        return core.eng().trunc(x.real if x.cplx else x)
    if k == 'f':
        x = x.real if x.cplx else x
        return Num(x.c, False, False, *x.fl()) if x.isint else x
    if k == 'c':
        return x if x.cplx else Num(x.c, True, False,
                                    zor(x.pinf, x.ninf), False, x.nan)
    if k == 'O':
        return x
    raise Unsupported("cast to %s" % dt)


def scalar_dtype(x):
    if isinstance(x, Sym):
        return x.dtype
    return np.asarray(x).dtype


def unwrap0(x):
    return x.item() if isinstance(x, _nd) and x.ndim == 0 else x


# ================================================================ SymArray
class SymArray(np.ndarray):
    """Object storage, logical dtype `_tag`."""

    def __new__(cls, data, tag):
        a = np.asarray(data, dtype=object)
        if type(a) is not np.ndarray:
            a = a.view(np.ndarray)
        out = a.view(cls)
        out._tag = np.dtype(tag)
        return out

    def __array_finalize__(self, obj):
        if obj is None:
            return
        t = getattr(obj, '_tag', None)
        if t is None:
            t = np.dtype('float64')
        self._tag = t

    # -------------------------------------------------------------- basics
    @property
    def dtype(self):
        return self._tag

    @dtype.setter
    def dtype(self, v):
        raise Unsupported("setting dtype")

    @property
    def itemsize(self):
        return self._tag.itemsize

    @property
    def nbytes(self):
        return self._tag.itemsize * self.size

    def raw(self):
        return _nd.view(self, np.ndarray)

    def view(self, *a, **k):
        if not a and not k:
            return SymArray(self.raw(), self._tag)
        t = a[0] if a else k.get('type', k.get('dtype'))
        if t in (np.ndarray, SymArray):
            return SymArray(self.raw(), self._tag)
        raise Unsupported("view")

    @property
    def real(self):
        if self._tag.kind != 'c':
            return self
        return emap(lambda e: e.real, self.raw(), rdt(self._tag))

    @real.setter
    def real(self, v):
        im = self.imag
        self[...] = v + 1j * im

    @property
    def imag(self):
        if self._tag.kind != 'c':
            return SymArray(_full(self.shape, np.float64(0)), self._tag)
        return emap(lambda e: e.imag, self.raw(), rdt(self._tag))

    @imag.setter
    def imag(self, v):
        re = self.real
        self[...] = re + 1j * np.asanyarray(v)

    def conj(self):
        return np.conjugate(self)
    conjugate = conj

    def astype(self, dt, *a, copy=True, **k):
        dt = np.dtype(dt)
        if dt == OBJ:
            return self.raw().copy()
        if dt == self._tag and not copy:
            return self
        return emap(lambda e: cast_scalar(e, dt), self.raw(), dt)

    def copy(self, order='C'):
        return SymArray(_nd.copy(self.raw(), order), self._tag)

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return self.raw().tolist()

    def item(self, *a):
        return self.raw().item(*a)

    def fill(self, v):
        self[...] = v

    def is_concrete(self):
        return not any(is_sym(e) and not _cconst(e) for e in self.raw().ravel())

    def concrete(self):
        out = np.empty(self.shape, dtype=self._tag)
        of, rf = out.reshape(-1), self.raw().reshape(-1)
        for i in range(rf.size):
            e = rf[i]
            of[i] = e.const() if isinstance(e, Num) else e
        return of.reshape(self.shape)

    def __float__(self):
        return builtins.float(self.item())

    def __int__(self):
        return builtins.int(self.item())

    def __index__(self):
        return self.item().__index__()

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one "
                             "element is ambiguous.")
        return builtins.bool(self.item())

    def __round__(self, n=None):
        return np.round(self, n or 0) if self.ndim else \
            builtins.round(self.item())

    def __repr__(self):
        return "SymArray(%s, %s)" % (self.shape, self._tag)
    __str__ = __repr__

    # methods whose C implementation would mistreat object storage
    def argmin(self, axis=None, out=None, **k):
        return np.argmin(self, axis=axis)

    def argmax(self, axis=None, out=None, **k):
        return np.argmax(self, axis=axis)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return np.argsort(self, axis=axis)

    def sort(self, axis=-1, kind=None, order=None, **k):
        self[...] = np.sort(self, axis=axis)

    def searchsorted(self, v, side='left', sorter=None):
        return np.searchsorted(self, v, side=side)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.mean(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, ddof=0, keepdims=False, **k):
        return np.std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, ddof=0, keepdims=False, **k):
        return np.var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.add.reduce(self, axis=axis, keepdims=keepdims, **k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.multiply.reduce(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np.minimum.reduce(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np.maximum.reduce(self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_or.reduce(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_and.reduce(self, axis=axis, keepdims=keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return np.cumsum(self, axis=axis)

    def clip(self, min=None, max=None, out=None, **k):
        return np.clip(self, min, max)

    def round(self, decimals=0, out=None):
        return np.round(self, decimals)

    def dot(self, b, out=None):
        return np.dot(self, b)

    def nonzero(self):
        return np.nonzero(self)

    def trace(self, *a, **k):
        return np.trace(self, *a, **k)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    # -------------------------------------------------------------- indexing
    def __getitem__(self, idx):
        kind, idx = norm_index(idx)
        if kind == 'plain':
            r = _nd.__getitem__(self, idx)
            if core.TRACK is not None:
                core.TRACK.read(self, idx)
            return r
        if kind == 'symint':
            return sym_get(self, idx)
        if kind == 'symmask':
            return Masked(self, idx)
        raise Unsupported("index kind %s" % kind)

    def __setitem__(self, idx, val):
        kind, idx = norm_index(idx)
        if isinstance(val, Masked):
            if kind == 'symmask' and val.same(idx):
                val = val.full
            else:
                val = val.forked()
        if core.TRACK is not None:
            core.TRACK.write(self, idx)
        core.prewrite(self)
        if kind == 'plain':
            self._bump()
            self.raw()[idx] = self._coerce(val)
            return
        if kind == 'symmask':
            mask = idx
            raw = self.raw()
            v = self._coerce(val)
            self._bump()
            if mask.shape != self.shape:
                mask = mask.reshape(mask.shape + (1,) * (self.ndim - mask.ndim))
                mask = np.broadcast_to(mask, self.shape)
            vb = np.broadcast_to(np.asarray(v, dtype=object), self.shape)
            for i in np.ndindex(self.shape):
                raw[i] = cast_scalar(ite(mask[i], vb[i], raw[i]), self._tag)
            return
        if kind == 'symint':
            sym_set(self, idx, val)
            return
        raise Unsupported("index kind %s" % kind)

    def _bump(self):
        pass

    def _coerce(self, val):
        dt = self._tag
        if isinstance(val, SymArray):
            if val._tag == dt or (val._tag.kind == dt.kind and dt.kind in 'fc'):
                return val.raw()
            return cast_obj(val.raw(), dt)
        if isinstance(val, _nd):
            return cast_obj(val.astype(object), dt) if val.ndim else \
                cast_scalar(val.item() if val.dtype == OBJ else val[()], dt)
        if isinstance(val, (list, tuple)):
            return cast_obj(np.array(val, dtype=object), dt)
        return cast_scalar(val, dt)


class Masked:
    """x[mask] with a symbolic mask: elementwise work stays on the full array (so
    that x[mask] op= c needs no case split); anything else splits on the mask."""
    __array_priority__ = 1e9

    def __init__(self, full, mask):
        full = full if isinstance(full, SymArray) else to_sym(np.asarray(full))
        if mask.shape != full.shape:
            if mask.shape != full.shape[:mask.ndim]:
                raise IndexError("boolean index did not match indexed array")
        self.full, self.mask = full, mask

    def same(self, mask):
        return mask.shape == self.mask.shape and builtins.all(
            bterm(p) is bterm(q) or str(bterm(p)) == str(bterm(q))
            for p, q in zip(mask.ravel(), self.mask.ravel()))

    def forked(self):
        m = np.array([builtins.bool(b if isinstance(b, bool) else mkbool(bterm(b)))
                      for b in self.mask.ravel()]).reshape(self.mask.shape)
        return SymArray(self.full.raw()[m], self.full.dtype)

    def _op(self, f, o, rev=False):
        if isinstance(o, Masked):
            if not self.same(o.mask):
                return f(self.forked(), o.forked())
            o = o.full
        elif np.ndim(o):
            return f(o, self.forked()) if rev else f(self.forked(), o)
        return Masked(f(o, self.full) if rev else f(self.full, o), self.mask)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.forked(), n)

    def __array_ufunc__(self, uf, method, *ins, **kw):
        if method == '__call__' and not kw and len(ins) == 1:
            return Masked(uf(self.full), self.mask)
        ins = [i.forked() if isinstance(i, Masked) else i for i in ins]
        return getattr(uf, method)(*ins, **kw)

    def __array_function__(self, func, types, args, kw):
        args = [i.forked() if isinstance(i, Masked) else i for i in args]
        return func(*args, **kw)

    def __neg__(self):
        return Masked(-self.full, self.mask)

    def __len__(self):
        return len(self.forked())

    def __getitem__(self, i):
        return self.forked()[i]

    def __iter__(self):
        return iter(self.forked())


def _mk_masked():
    import operator as op
    for n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lt', 'le',
              'gt', 'ge', 'eq', 'ne', 'and_', 'or_'):
        f = getattr(op, n)
        nm = n.rstrip('_')
        setattr(Masked, '__%s__' % nm, lambda s, o, f=f: s._op(f, o))
        setattr(Masked, '__r%s__' % nm, lambda s, o, f=f: s._op(f, o, True))


_mk_masked()
Masked.__hash__ = None


def _cconst(e):
    return isinstance(e, Num) and e.is_const()


def rdt(dt):
    return {'complex128': np.dtype('float64'),
            'complex64': np.dtype('float32')}.get(str(dt), dt)


def cdt(dt):
    return np.dtype('complex64' if str(dt) in ('float32', 'complex64')
                    else 'complex128')


def _full(shape, v):
    a = np.empty(shape, dtype=object)
    a[...] = v
    return a


def cast_obj(raw, dt):
    out = np.empty(raw.shape, dtype=object)
    of, rf = out.reshape(-1), raw.reshape(-1)
    for i in range(rf.size):
        of[i] = cast_scalar(rf[i], dt)
    return of.reshape(raw.shape)


def emap(f, raw, tag):
    out = np.empty(raw.shape, dtype=object)
    of, rf = out.reshape(-1), raw.reshape(-1)
    for i in range(rf.size):
        of[i] = f(rf[i])
    return SymArray(of.reshape(raw.shape), tag)


def obj(x):
    """raw object ndarray of anything."""
    if isinstance(x, SymArray):
        return x.raw()
    if isinstance(x, _nd):
        return x.astype(object) if x.dtype != OBJ else x
    if is_sym(x) or np.isscalar(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        return _arr_from_seq(x).raw()
    a = np.asarray(x)
    return a.astype(object)


def has_sym(x):
    if isinstance(x, (Sym, SymArray)):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(has_sym(e) for e in x)
    if isinstance(x, dict):
        return builtins.any(has_sym(e) for e in x.values())
    return isinstance(x, _nd) and x.dtype == OBJ


def _arr_from_seq(x):
    """list/tuple (nested, with symbolic members) -> SymArray"""
    elems = [e if isinstance(e, (SymArray, _nd)) or not
             isinstance(e, (list, tuple)) else _arr_from_seq(e) for e in x]
    dts = [dtype_of(e) for e in elems]
    tag = np.result_type(*dts) if dts else np.dtype('float64')
    raws = [obj(e) for e in elems]
    if not raws:
        return SymArray(np.empty(0, dtype=object), tag)
    out = np.empty((len(raws),) + raws[0].shape, dtype=object)
    for i, r in enumerate(raws):
        out[i] = r if r.ndim else r.item()
    return SymArray(cast_obj(out, tag), tag)


def dtype_of(x):
    if isinstance(x, (SymArray, Sym)):
        return x.dtype
    if isinstance(x, _nd):
        if x.dtype == OBJ:
            if x.size and isinstance(x.reshape(-1)[0], Sym):
                return x.reshape(-1)[0].dtype
            return np.dtype('float64')
        return x.dtype
    if isinstance(x, (list, tuple)):
        return np.result_type(*[dtype_of(e) for e in x]) if x else \
            np.dtype('float64')
    return np.asarray(x).dtype


def weak(x):
    """representative value for result_type computations (python scalars weak)."""
    if isinstance(x, SymArray):
        return np.ones((1,) * builtins.max(x.ndim, 0), dtype=x.dtype) if x.ndim \
            else x.dtype.type(1)
    if isinstance(x, Num):
        return 1j if x.cplx else (1 if x.isint else 1.)
    if isinstance(x, SBool):
        return np.bool_(True)
    if isinstance(x, _nd):
        if x.dtype == OBJ:
            return np.ones((1,) * x.ndim, dtype=dtype_of(x))
        return np.ones((1,) * x.ndim, dtype=x.dtype) if x.ndim else \
            x.dtype.type(1)
    return x


# ---------------------------------------------------------------- index utils
def norm_index(idx):
    """('plain', idx) | ('symmask', obj bool array) | ('symint', tuple)"""
    tup = idx if isinstance(idx, tuple) else (idx,)
    out, symint = [], False
    for t in tup:
        if isinstance(t, SymArray):
            if t.is_concrete():
                t = t.concrete()
            elif t.dtype.kind == 'b':
                if len(tup) == 1:
                    return 'symmask', t.raw()
                t = np.array([builtins.bool(e) for e in t.raw().ravel()]
                             ).reshape(t.shape)
            else:
                symint = True
            out.append(t)
        elif isinstance(t, Num):
            if t.is_const():
                out.append(builtins.int(t.const()))
            else:
                if not t.isint:
                    raise IndexError("non-integer symbolic index")
                symint = True
                out.append(t)
        elif isinstance(t, SBool):
            out.append(builtins.bool(t))
        elif isinstance(t, slice):
            f = lambda q: q.__index__() if isinstance(q, (Num, SymArray)) else q
            out.append(slice(f(t.start), f(t.stop), f(t.step)))
        elif isinstance(t, list) and has_sym(t):
            symint = True
            out.append(_arr_from_seq(t))
        else:
            out.append(t)
    res = tuple(out) if isinstance(idx, tuple) else out[0]
    if not symint:
        return 'plain', res
    return 'symint', tuple(out)


def _expand(arr, idx):
    """Fill missing dims / ellipsis with full slices."""
    idx = list(idx)
    if builtins.any(t is Ellipsis for t in idx):
        e = [i for i, t in enumerate(idx) if t is Ellipsis][0]
        n = arr.ndim - (len([t for t in idx if t is not None]) - 1)
        idx[e:e + 1] = [slice(None)] * n
    while len([t for t in idx if t is not None]) < arr.ndim:
        idx.append(slice(None))
    return idx


def _bounded(k, n):
    """In-range symbolic index in [0, n); forks for wrap / out of bounds."""
    E = core.eng()
    ge, lt = k >= 0, k < n
    ok = ge & lt
    if ok is True or (ok is not False and builtins.bool(ok)):
        return k
    neg = (k < 0) & (k >= -n)
    if neg is True or (neg is not False and builtins.bool(neg)):
        return k + n
    raise IndexError("index out of bounds for axis of size %d" % n)


def _sel(k, r):
    """condition k == r as z3/bool"""
    return bterm(k == r)


def sym_get(arr, idx):
    idx = _expand(arr, idx)
    pos = [i for i, t in enumerate(idx) if isinstance(t, Num) or
           (isinstance(t, SymArray) and not t.is_concrete())]
    if builtins.any(t is None for t in idx):
        raise Unsupported("newaxis with symbolic index")
    arrs = [i for i, t in enumerate(idx) if isinstance(t, _nd)]
    if not arrs and len(pos) == 1:
        p = pos[0]
        k = _bounded(idx[p], arr.shape[p])
        key = ('sget', id(arr.raw().base if arr.raw().base is not None
                          else arr), p, k.key(),
               tuple(repr(t) for i, t in enumerate(idx) if i != p))
        res = None
        E = core.eng()
        for r in range(arr.shape[p]):
            j = list(idx)
            j[p] = r
            v = arr.raw()[tuple(j)]
            g = gate_obj(_sel(k, r), v)
            res = g if res is None else res + g
        if isinstance(res, _nd):
            res = SymArray(res, arr.dtype)
        arr_last(arr)[key] = res
        return res
    # general: index arrays (fancy).  Element by element.
    if builtins.any(isinstance(t, slice) and t != slice(None) for t in idx) and \
            len(arrs) + len(pos) > 1:
        raise Unsupported("mixed fancy index")
    return fancy_get(arr, idx)


def arr_last(arr):
    d = _LAST
    return d


_LAST = {}


def gate_obj(c, v):
    """Sum-able gated value."""
    if isinstance(v, _nd):
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            out[i] = gate_obj(c, v[i])
        return out
    if isinstance(v, SBool) or isinstance(v, (bool, np.bool_)):
        return core.eng().gate(c, as_num(v))
    return core.eng().gate(c, as_num(v))


def sym_set(arr, idx, val):
    idx = _expand(arr, idx)
    pos = [i for i, t in enumerate(idx) if isinstance(t, Num)]
    arrs = [i for i, t in enumerate(idx) if isinstance(t, _nd)]
    if not arrs and len(pos) == 1:
        p = pos[0]
        k = _bounded(idx[p], arr.shape[p])
        key = ('sget', id(arr.raw().base if arr.raw().base is not None
                          else arr), p, k.key(),
               tuple(repr(t) for i, t in enumerate(idx) if i != p))
        read = _LAST.pop(key, None)
        v = arr._coerce(val)
        delta = None
        if read is not None and arr.dtype.kind in 'fciu':
            d = obj(v) - obj(read)
            delta = d if isinstance(d, _nd) else obj(d)
            # use only if the read part cancels
            nb = builtins.sum(len(as_num(e).c) for e in obj(v).ravel())
            nd = builtins.sum(len(as_num(e).c) for e in delta.ravel())
            if nd > nb:
                delta = None
        raw = arr.raw()
        for r in range(arr.shape[p]):
            j = list(idx)
            j[p] = r
            j = tuple(j)
            c = _sel(k, r)
            old = raw[j]
            if delta is not None:
                dd = delta if isinstance(old, _nd) else delta.item()
                raw[j] = old + gate_obj(c, dd)
            else:
                raw[j] = ite_obj(c, v, old)
        return
    fancy_set(arr, idx, val)


def ite_obj(c, a, b):
    if isinstance(b, _nd):
        a = np.broadcast_to(np.asarray(a, dtype=object), b.shape)
        out = np.empty(b.shape, dtype=object)
        for i in np.ndindex(b.shape):
            out[i] = ite(mkbool(c), a[i], b[i])
        return out
    a = unwrap0(a)
    return ite(mkbool(c), a, b)


def _fancy_iter(arr, idx):
    """Yield (result position, per-axis index tuple) with broadcasting."""
    fixed = []
    for i, t in enumerate(idx):
        if isinstance(t, slice):
            if t != slice(None):
                raise Unsupported("slice mixed with symbolic fancy index")
            fixed.append(('all', i))
        else:
            fixed.append(('idx', obj(t)))
    b = np.broadcast_shapes(*[f[1].shape for f in fixed if f[0] == 'idx'])
    adv = [i for i, f in enumerate(fixed) if f[0] == 'idx']
    if adv and adv != list(range(adv[0], adv[-1] + 1)):
        raise Unsupported("separated advanced indices")
    return fixed, b, adv


def fancy_get(arr, idx):
    fixed, b, adv = _fancy_iter(arr, idx)
    pre = [arr.shape[i] for i in range(adv[0])]
    post = [arr.shape[i] for i in range(adv[-1] + 1, arr.ndim)]
    out = np.empty(tuple(pre) + b + tuple(post), dtype=object)
    bc = [np.broadcast_to(f[1], b) for f in fixed if f[0] == 'idx']
    for a in np.ndindex(*pre):
        for m in np.ndindex(*b):
            sub = arr[tuple(a)] if a else arr
            for t in bc:
                sub = sub[t[m]] if not isinstance(t[m], SBool) else \
                    sub[int(t[m])]
            o = sub.raw() if isinstance(sub, SymArray) else sub
            out[a + m] = o
    return SymArray(out, arr.dtype)


def fancy_set(arr, idx, val):
    fixed, b, adv = _fancy_iter(arr, idx)
    pre = [arr.shape[i] for i in range(adv[0])]
    post = [arr.shape[i] for i in range(adv[-1] + 1, arr.ndim)]
    v = np.broadcast_to(np.asarray(arr._coerce(val), dtype=object),
                        tuple(pre) + b + tuple(post))
    bc = [np.broadcast_to(f[1], b) for f in fixed if f[0] == 'idx']
    for a in np.ndindex(*pre):
        for m in np.ndindex(*b):
            ks = [t[m] for t in bc]
            nsym = [q for q in ks if isinstance(q, Num)]
            if len(nsym) <= 1:
                key = tuple(a) + tuple(ks)
                arr[key] = v[a + m]
            else:
                # several symbolic coordinates: condition per cell
                ks = [_bounded(as_num(q), arr.shape[len(a) + n])
                      for n, q in enumerate(ks)]
                rng = [range(arr.shape[len(a) + n]) for n in range(len(ks))]
                raw = arr.raw()
                for cell in np.ndindex(*[len(r) for r in rng]):
                    c = zand(*[_sel(q, r) for q, r in zip(ks, cell)])
                    raw[a + cell] = ite_obj(c, v[a + m], raw[a + cell])


# ================================================================ ufuncs
def _num2(f):
    return f


def _special_any(x):
    x = as_num(x)
    return x


def s_isinf(x):
    if isinstance(x, SBool):
        return False
    x = as_num(x)
    return mkbool(zor(x.pinf, x.ninf))


def s_isnan(x):
    if isinstance(x, SBool):
        return False
    return mkbool(as_num(x).nan)


def s_isfinite(x):
    x = as_num(x)
    return mkbool(znot(zor(x.pinf, x.ninf, x.nan)))


def s_min(a, b):
    a, b = as_num(a), as_num(b)
    r = ite(a < b, a, b)
    return _nanprop(r, a, b)


def s_max(a, b):
    a, b = as_num(a), as_num(b)
    r = ite(a > b, a, b)
    return _nanprop(r, a, b)


def _nanprop(r, a, b):
    nan = zor(a.nan, b.nan)
    if nan is False:
        return r
    r = as_num(r)
    return Num(r.c, r.cplx, False, zand(r.pinf, znot(nan)),
               zand(r.ninf, znot(nan)), nan)


def py_min2(a, b):
    """python/numba min(a, b): b if b < a else a"""
    return ite(as_num(b) < as_num(a), b, a)


def py_max2(a, b):
    return ite(as_num(b) > as_num(a), b, a)


def s_sign(x):
    x = as_num(x)
    return ite(x > 0, 1., ite(x < 0, -1., 0.))


def s_angle(x):
    x = as_num(x)
    z = asarr(z)
    if isinstance(z, SymArray) and z.is_concrete():
        return np.angle(z.concrete(), deg)
    raise Unsupported("angle of symbolic")


def s_arctan2(y, x):
    raise Unsupported("arctan2 of symbolic")


def s_not(x):
    b = bterm(x if isinstance(x, (SBool, bool, np.bool_)) else as_num(x) != 0)
    return mkbool(znot(b))


def _b(x):
    return mkbool(bterm(x)) if isinstance(x, (SBool, bool, np.bool_)) else \
        (as_num(x) != 0)


UF = {
    'add': lambda a, b: as_num(a) + as_num(b),
    'subtract': lambda a, b: as_num(a) - as_num(b),
    'multiply': lambda a, b: (core.gate_any(a.b, b) if isinstance(a, SBool) else
                              core.gate_any(b.b, a) if isinstance(b, SBool) else
                              as_num(a) * as_num(b)),
    'divide': lambda a, b: as_num(a) / as_num(b),
    'true_divide': lambda a, b: as_num(a) / as_num(b),
    'floor_divide': lambda a, b: as_num(a) // as_num(b),
    'remainder': lambda a, b: as_num(a) % as_num(b),
    'power': lambda a, b: as_num(a) ** (b if not is_sym(b) else b),
    'float_power': lambda a, b: as_num(a) ** b,
    'negative': lambda a: -as_num(a),
    'positive': lambda a: a,
    'absolute': lambda a: abs(as_num(a)),
    'fabs': lambda a: abs(as_num(a)),
    'square': lambda a: as_num(a) * as_num(a),
    'reciprocal': lambda a: as_num(1.) / as_num(a),
    'sqrt': lambda a: core.eng().sqrt(as_num(a)),
    'exp': lambda a: core.eng().fn('exp', as_num(a)),
    'exp2': lambda a: core.eng().fn('exp', as_num(a).scale(math.log(2))),
    'log2': lambda a: core.eng().log2(as_num(a)),
    'log': lambda a: core.eng().log2(as_num(a)).scale(math.log(2)),
    'log10': lambda a: core.eng().log2(as_num(a)).scale(math.log10(2)),
    'arctan': lambda a: core.eng().fn('atan', as_num(a)),
    'arctan2': s_arctan2,
    'conjugate': lambda a: as_num(a).conjugate(),
    'sign': s_sign,
    'rint': lambda a: core.eng().rint(as_num(a)),
    'floor': lambda a: core.eng().floor(as_num(a)),
    'ceil': lambda a: -core.eng().floor(-as_num(a)),
    'trunc': lambda a: core.eng().trunc(as_num(a)),
    'minimum': s_min, 'maximum': s_max, 'fmin': py_min2, 'fmax': py_max2,
    'less': lambda a, b: as_num(a) < as_num(b),
    'less_equal': lambda a, b: as_num(a) <= as_num(b),
    'greater': lambda a, b: as_num(a) > as_num(b),
    'greater_equal': lambda a, b: as_num(a) >= as_num(b),
    'equal': lambda a, b: (as_num(a) == as_num(b)),
    'not_equal': lambda a, b: (as_num(a) != as_num(b)),
    'isinf': s_isinf, 'isnan': s_isnan, 'isfinite': s_isfinite,
    'logical_and': lambda a, b: mkbool(zand(bterm(_b(a)), bterm(_b(b)))),
    'logical_or': lambda a, b: mkbool(zor(bterm(_b(a)), bterm(_b(b)))),
    'logical_not': s_not,
    'logical_xor': lambda a, b: _b(a) ^ _b(b) if is_sym(_b(a)) or
    is_sym(_b(b)) else builtins.bool(_b(a)) ^ builtins.bool(_b(b)),
    'bitwise_and': lambda a, b: mkbool(zand(bterm(_b(a)), bterm(_b(b)))),
    'bitwise_or': lambda a, b: mkbool(zor(bterm(_b(a)), bterm(_b(b)))),
    'bitwise_xor': lambda a, b: _b(a) ^ _b(b),
    'invert': s_not,
    'hypot': lambda a, b: abs(as_num(a) + as_num(b).scale(1j)),
    'clip': lambda a, lo, hi: s_min(s_max(a, lo), hi),
    'deg2rad': lambda a: as_num(a).scale(math.pi / 180),
    'expm1': lambda a: core.eng().fn('exp', as_num(a)) - 1,
}
_BOOLRES = {'less', 'less_equal', 'greater', 'greater_equal', 'equal',
            'not_equal', 'isinf', 'isnan', 'isfinite', 'logical_and',
            'logical_or', 'logical_not', 'logical_xor'}


def uf_scalar(ufunc):
    name = ufunc.__name__
    f = UF.get(name)
    real = ufunc

    def call(*args):
        if not builtins.any(is_sym(a) for a in args):
            with np.errstate(all='ignore'):
                r = real(*args)
            return r
        if f is None:
            raise Unsupported("ufunc %s on symbolic values" % name)
        return f(*args)
    return call


def result_tag(ufunc, inputs):
    ws = [weak(x) for x in inputs]
    name = ufunc.__name__
    if name in _BOOLRES:
        return np.dtype(bool)
    try:
        with np.errstate(all='ignore'):
            r = ufunc(*ws)
        return np.asarray(r).dtype
    except Exception:
        return np.result_type(*ws)


_SELF = {'logical_or': False, 'logical_and': True, 'add': 0., 'multiply': 1.}


def demote(a):
    """concrete boolean / integer arrays become real ndarrays."""
    if isinstance(a, SymArray) and a.dtype.kind in 'b' and a.is_concrete():
        return a.concrete()
    return a


def finish(a, tag):
    if isinstance(a, _nd) and a.ndim:
        return demote(SymArray(a, tag))
    return unwrap0(a)


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = dict(kw)
    out = kw.pop('out', None)
    if isinstance(out, tuple):
        out = out[0]
    where = kw.pop('where', True)
    if name == 'matmul' and method == '__call__':
        return matmul(*inputs)
    if method == '__call__':
        tag = result_tag(ufunc, inputs)
        if kw.get('dtype') is not None:
            tag = np.dtype(kw.pop('dtype'))
        raws = [obj(x) for x in inputs]
        sc = uf_scalar(ufunc)
        if ufunc.nout != 1:
            if name == 'divmod':
                return (ufunc_dispatch(np.floor_divide, '__call__', inputs, {}),
                        ufunc_dispatch(np.remainder, '__call__', inputs, {}))
            raise Unsupported("ufunc %s" % name)
        b = np.broadcast(*raws) if len(raws) > 1 else None
        shape = b.shape if b is not None else raws[0].shape
        res = np.empty(shape, dtype=object)
        rb = [np.broadcast_to(r, shape) for r in raws]
        for i in np.ndindex(*shape):
            res[i] = sc(*[r[i] for r in rb])
        if where is not True:
            if out is None:
                raise Unsupported("where without out")
            wb = np.broadcast_to(obj(where), shape)
            for i in np.ndindex(*shape):
                res[i] = ite(wb[i], res[i], obj(out)[i])
        if out is not None:
            if not isinstance(out, SymArray):
                if isinstance(out, _nd) and out.dtype == OBJ:
                    out[...] = res
                    return out
                if isinstance(out, _nd) and not has_symbolic(res):
                    out[...] = np.array(res.tolist()).reshape(res.shape)
                    return out
                raise Unsupported("in-place result into a concrete array")
            if core.TRACK is not None:
                core.TRACK.write(out, Ellipsis)
            core.prewrite(out)
            out.raw()[...] = cast_obj(res, out.dtype)
            return out
        return finish(res, tag)
    if method == 'reduce':
        x = inputs[0]
        axis = kw.get('axis', 0)
        if len(inputs) > 1:
            axis = inputs[1]
        return reduce_(ufunc, x, axis, kw.get('keepdims', False),
                       kw.get('initial', None), out, where)
    if method == 'accumulate':
        x = inputs[0]
        axis = kw.get('axis', 0)
        raw = np.moveaxis(obj(x), axis, 0)
        res = np.empty(raw.shape, dtype=object)
        sc = uf_scalar(ufunc)
        fn = np.frompyfunc(sc, 2, 1)
        acc = None
        for i in range(raw.shape[0]):
            acc = raw[i] if acc is None else fn(acc, raw[i])
            res[i] = acc
        return SymArray(np.moveaxis(res, 0, axis), dtype_of(x))
    if method == 'outer':
        a, b = inputs
        return ufunc_dispatch(ufunc, '__call__', (
            np.asanyarray(a).reshape(np.shape(a) + (1,) * np.ndim(b)), b), {})
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        idx = idx if isinstance(idx, tuple) else (idx,)
        bs = np.broadcast_arrays(*[obj(i) for i in idx])
        v = np.broadcast_to(obj(inputs[2]), bs[0].shape) \
            if len(inputs) > 2 else None
        for m in np.ndindex(*bs[0].shape):
            key = tuple(q[m] for q in bs)
            key = key if len(key) > 1 else key[0]
            cur = a[key]
            a[key] = ufunc(cur, v[m]) if v is not None else ufunc(cur)
        return None
    raise Unsupported("ufunc method %s.%s" % (name, method))


def has_symbolic(raw):
    return builtins.any(is_sym(e) for e in raw.ravel())


def reduce_(ufunc, x, axis, keepdims=False, initial=None, out=None, where=True):
    name = ufunc.__name__
    raw = obj(x)
    tag = dtype_of(x)
    if where is not True:
        raise Unsupported("reduce where")
    if name in ('logical_or', 'logical_and'):
        tag = np.dtype(bool)
    elif name in ('add', 'multiply') and tag.kind == 'b':
        tag = np.dtype('int64')
    if axis is None:
        axes = tuple(range(raw.ndim))
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
        axes = tuple(a % raw.ndim if raw.ndim else 0 for a in axes)
    if raw.ndim == 0:
        return raw.item()
    rest = [i for i in range(raw.ndim) if i not in axes]
    t = np.transpose(raw, list(axes) + rest)
    t = t.reshape((-1,) + t.shape[len(axes):])
    sc = uf_scalar(ufunc)
    res = np.empty(t.shape[1:], dtype=object)
    for i in np.ndindex(*t.shape[1:]):
        vals = [t[(j,) + i] for j in range(t.shape[0])]
        if name == 'add' and vals and builtins.any(is_sym(v) for v in vals):
            acc = sum_fast(vals)
            if initial is not None:
                acc = acc + initial
        elif name in ('minimum', 'maximum') and len(vals) > 2 - (
                core.ENG is not None and core.ENG.fork) and (
                initial is None or initial is np._NoValue) and \
                builtins.any(is_sym(v) for v in vals) and not builtins.any(
                    isinstance(v, SBool) or as_num(v).cplx for v in vals):
            acc = core.eng().extremum([as_num(v) for v in vals],
                                      name == 'minimum')
        else:
            it = iter(vals)
            if initial is not None and initial is not np._NoValue:
                acc = initial
            elif vals:
                acc = next(it)
                if name.startswith('logical') and not isinstance(acc, SBool):
                    acc = _b(acc)
            elif name in _SELF:
                acc = _SELF[name]
            else:
                raise ValueError("zero-size array to reduction operation")
            for v in it:
                acc = sc(acc, v)
        res[i] = acc
    if keepdims:
        shp = [1 if i in axes else n for i, n in enumerate(raw.shape)]
        res = res.reshape(shp)
    if out is not None:
        out[...] = SymArray(res, tag)
        return out
    return finish(res, tag)


def sum_fast(vals):
    ns = [as_num(v) for v in vals]
    if builtins.any(n.special for n in ns):
        acc = ns[0]
        for n in ns[1:]:
            acc = acc + n
        return acc
    c = {}
    for n in ns:
        for i, v in n.c.items():
            c[i] = c.get(i, 0.) + v
    c = {i: v for i, v in c.items() if v != 0}
    return Num(c, builtins.any(n.cplx for n in ns),
               builtins.all(n.isint for n in ns))


def matmul(a, b):
    ta, tb = dtype_of(a), dtype_of(b)
    ra, rb = obj(a), obj(b)
    if ra.ndim == 1 and rb.ndim == 1:
        return sum_fast([_mul(x, y) for x, y in zip(ra, rb)])
    a1 = ra.ndim == 1
    b1 = rb.ndim == 1
    if a1:
        ra = ra[None]
    if b1:
        rb = rb[:, None]
    if ra.ndim > 2 or rb.ndim > 2:
        bshape = np.broadcast_shapes(ra.shape[:-2], rb.shape[:-2])
        A = np.broadcast_to(ra, bshape + ra.shape[-2:])
        B = np.broadcast_to(rb, bshape + rb.shape[-2:])
    else:
        bshape, A, B = (), ra, rb
    if A.shape[-1] != B.shape[-2]:
        raise ValueError("matmul: mismatch in core dimension")
    out = np.empty(bshape + (A.shape[-2], B.shape[-1]), dtype=object)
    for m in np.ndindex(*out.shape):
        h = m[:-2]
        row, col = A[h + (m[-2],)], B[h + (slice(None), m[-1])]
        out[m] = sum_fast([_mul(x, y) for x, y in zip(row, col)])
    if a1:
        out = out[..., 0, :]
    if b1:
        out = out[..., 0]
    return finish(out, np.result_type(ta, tb))


def _mul(x, y):
    if not is_sym(x) and not is_sym(y):
        return x * y
    return UF['multiply'](x, y)


# ================================================================ functions
FN = {}


def implements(*names):
    def deco(f):
        for n in names:
            FN[n] = f
        return f
    return deco


@implements('where')
def f_where(c, a=None, b=None):
    if a is None:
        return f_nonzero(c)
    tag = np.result_type(weak(a), weak(b))
    rc, ra, rb = obj(c), obj(a), obj(b)
    shape = np.broadcast_shapes(rc.shape, ra.shape, rb.shape)
    rc, ra, rb = [np.broadcast_to(r, shape) for r in (rc, ra, rb)]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        cc = rc[i] if isinstance(rc[i], (SBool, bool, np.bool_)) else _b(rc[i])
        out[i] = cast_scalar(ite(cc, ra[i], rb[i]), tag)
    return finish(out, tag)


@implements('nonzero', 'flatnonzero', 'argwhere')
def f_nonzero(c):
    raw = obj(c)
    m = np.array([builtins.bool(e) for e in raw.ravel()], dtype=bool
                 ).reshape(raw.shape)
    return np.nonzero(m)


FN['flatnonzero'] = lambda c: f_nonzero(np.ravel(c))[0]
FN['argwhere'] = lambda c: np.transpose(f_nonzero(c))


@implements('real')
def f_real(x):
    return x.real


@implements('imag')
def f_imag(x):
    return x.imag


@implements('iscomplexobj')
def f_iscomplexobj(x):
    return dtype_of(x).kind == 'c'


@implements('isrealobj')
def f_isrealobj(x):
    return dtype_of(x).kind != 'c'


@implements('zeros_like')
def f_zeros_like(x, dtype=None, order='K', subok=True, shape=None, **k):
    return NP.zeros(x.shape if shape is None else shape, dtype or dtype_of(x))


@implements('ones_like')
def f_ones_like(x, dtype=None, order='K', subok=True, shape=None, **k):
    return NP.ones(x.shape if shape is None else shape, dtype or dtype_of(x))


@implements('empty_like')
def f_empty_like(x, dtype=None, order='K', subok=True, shape=None, **k):
    return NP.empty(x.shape if shape is None else shape, dtype or dtype_of(x))


@implements('full_like')
def f_full_like(x, v, dtype=None, order='K', subok=True, shape=None, **k):
    return NP.full(x.shape if shape is None else shape, v,
                   dtype or dtype_of(x))


@implements('sum')
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
          where=True):
    return reduce_(np.add, a if isinstance(a, _nd) else asarr(a), axis,
                   builtins.bool(keepdims) if keepdims is not np._NoValue
                   else False)


def asarr(a):
    return a if isinstance(a, (SymArray, _nd)) else \
        (_arr_from_seq(a) if isinstance(a, (list, tuple)) else
         SymArray(obj(a), dtype_of(a)))


@implements('prod')
def f_prod(a, axis=None, keepdims=False, **k):
    return reduce_(np.multiply, asarr(a), axis, keepdims)


@implements('mean', 'nanmean')
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarr(a)
    s = reduce_(np.add, a, axis, builtins.bool(keepdims)
                if keepdims is not np._NoValue else False)
    n = a.size if axis is None else \
        int(np.prod([a.shape[q] for q in np.atleast_1d(axis)]))
    return s / n


@implements('average')
def f_average(a, axis=None, weights=None, **k):
    if weights is None:
        return f_mean(a, axis)
    return f_sum(a * weights, axis) / f_sum(weights * np.ones(a.shape), axis)


@implements('var')
def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = asarr(a)
    m = f_mean(a, axis, keepdims=True)
    d = a - m
    d2 = (d * np.conj(d)).real if a.dtype.kind == 'c' else d * d
    n = a.size if axis is None else a.shape[axis]
    return reduce_(np.add, d2, axis, keepdims) / (n - ddof)


@implements('std')
def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return np.sqrt(f_var(a, axis, ddof=ddof, keepdims=keepdims))


@implements('max', 'amax')
def f_max(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(np.maximum, asarr(a), axis, keepdims is True)


@implements('min', 'amin')
def f_min(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(np.minimum, asarr(a), axis, keepdims is True)


@implements('any')
def f_any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(np.logical_or, asarr(a), axis, keepdims is True)


@implements('all')
def f_all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(np.logical_and, asarr(a), axis, keepdims is True)


@implements('cumsum')
def f_cumsum(a, axis=None, **k):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return np.add.accumulate(a, axis=axis)


@implements('cumprod')
def f_cumprod(a, axis=None, **k):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return np.multiply.accumulate(a, axis=axis)


@implements('diff')
def f_diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a


@implements('clip')
def f_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None and lo is not np._NoValue:
        r = np.maximum(r, lo)
    if hi is not None and hi is not np._NoValue:
        r = np.minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


@implements('round', 'around', 'round_')
def f_round(a, decimals=0, out=None):
    a = asarr(a)
    tag = a.dtype
    if tag.kind in 'iub':
        return a
    f = 10. ** decimals
    r = emap(lambda e: (builtins.round(e * f) if is_sym(e) else
                        np.rint(e * f)), obj(a), tag)
    r = emap(lambda e: (cast_scalar(e, tag) / f) if f != 1 else
             cast_scalar(e, tag), r.raw(), tag)
    return r if r.ndim else r.item()


@implements('argmin', 'argmax')
def f_argmin(a, axis=None, **k):
    return _argext(a, axis, lambda x, y: x < y)


FN['argmax'] = lambda a, axis=None, **k: _argext(a, axis, lambda x, y: x > y)


def _argext(a, axis, better):
    raw = obj(a)
    if axis is None:
        raw = raw.reshape(-1)
        axis = 0
    raw = np.moveaxis(raw, axis, 0)
    out = np.empty(raw.shape[1:], dtype=object)
    for i in np.ndindex(*raw.shape[1:]):
        best, bi = raw[(0,) + i], 0
        for r in range(1, raw.shape[0]):
            v = raw[(r,) + i]
            if is_sym(v) or is_sym(best):
                c = better(as_num(v), as_num(best))
            else:
                c = builtins.bool(better(v, best))
            if core.ENG is not None and core.ENG.fork:
                c = builtins.bool(c)
            best = ite(c, v, best)
            bi = ite(c, r, bi)
        out[i] = bi
    if out.ndim == 0:
        return out.item()
    r = SymArray(out, np.int64)
    return r.concrete() if r.is_concrete() else r


@implements('sort')
def f_sort(a, axis=-1, **k):
    raw = obj(a)
    if raw.ndim != 1:
        out = np.apply_along_axis(lambda v: _sort1(v), axis, raw)
        return SymArray(out, dtype_of(a))
    return SymArray(_sort1(raw), dtype_of(a))


def _sort1(v):
    """Sorting network (symbolic values)."""
    v = list(v)
    n = len(v)
    for i in range(n):
        for j in range(0, n - 1 - i):
            c = as_num(v[j]) <= as_num(v[j + 1])
            v[j], v[j + 1] = ite(c, v[j], v[j + 1]), ite(c, v[j + 1], v[j])
    o = np.empty(n, dtype=object)
    for i in range(n):
        o[i] = v[i]
    return o


@implements('argsort')
def f_argsort(a, axis=-1, kind=None, **k):
    raw = obj(a)
    if isinstance(a, SymArray) and a.is_concrete():
        return SymArray(np.argsort(a.concrete(), axis=axis, kind=kind), 'int64')
    if raw.ndim != 1:
        raise Unsupported("argsort nd symbolic")
    # rank computation by forking insertion sort (stable)
    order = []
    for i in range(len(raw)):
        p = len(order)
        while p > 0 and builtins.bool(as_num(raw[i]) < as_num(raw[order[p - 1]])):
            p -= 1
        order.insert(p, i)
    return SymArray(np.array(order, dtype=object), 'int64')


@implements('linspace')
def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
               axis=0):
    a, b, n = unwrap0(start), unwrap0(stop), int(num)
    if any(isinstance(q, _nd) and q.ndim for q in (a, b)):
        raise Unsupported("linspace of arrays")
    a, b = as_num(a), as_num(b)
    div = (n - 1) if endpoint else n
    step = (b - a) * (1. / div) if div > 0 else b - a
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = a + step * i
    out = SymArray(out, dtype or 'float64')
    return (out, step) if retstep else out


@implements('searchsorted')
def f_searchsorted(v, a, side='left', sorter=None):
    if sorter is not None:
        v = v[sorter]
    rv_, ra = obj(v), obj(a)
    out = np.empty(ra.shape, dtype=object)
    for i in np.ndindex(*ra.shape):
        k = as_num(0)
        for e in rv_:
            c = (as_num(e) < as_num(ra[i])) if side == 'left' else \
                (as_num(e) <= as_num(ra[i]))
            k = k + ite(c, 1, 0)
        out[i] = k if not as_num(k).is_const() else int(as_num(k).const())
    return finish(out, np.dtype('int64'))


@implements('allclose')
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_isclose(a, b, rtol, atol)
    return f_all(r) if isinstance(r, _nd) else r


@implements('isclose')
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np.abs(a - b) <= atol + rtol * np.abs(b)


@implements('array_equal')
def f_array_equal(a, b, **k):
    if np.shape(a) != np.shape(b):
        return False
    return f_all(np.equal(a, b))


@implements('dot')
def f_dot(a, b, out=None):
    if np.ndim(a) == 0 or np.ndim(b) == 0:
        return a * b
    return matmul(a, b)


@implements('vdot')
def f_vdot(a, b):
    return matmul(np.conj(a).reshape(-1), b.reshape(-1))


@implements('inner')
def f_inner(a, b):
    return matmul(a, np.transpose(b))


@implements('outer')
def f_outer(a, b, out=None):
    return asarr(a).reshape(-1, 1) * asarr(b).reshape(1, -1)


@implements('einsum')
def f_einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    ins, outl = spec.split('->') if '->' in spec else (spec, None)
    ins = ins.split(',')
    dims = {}
    for s, o in zip(ins, ops):
        for ch, n in zip(s, np.shape(o)):
            dims[ch] = n
    if outl is None:
        cnt = ''.join(ins)
        outl = ''.join(sorted(ch for ch in set(cnt) if cnt.count(ch) == 1))
    summed = [ch for ch in dims if ch not in outl]
    raws = [obj(o) for o in ops]
    out = np.empty([dims[ch] for ch in outl], dtype=object)
    for m in np.ndindex(*out.shape):
        env = dict(zip(outl, m))
        vals = []
        for t in np.ndindex(*[dims[ch] for ch in summed]):
            env.update(zip(summed, t))
            p = None
            for s, r in zip(ins, raws):
                e = r[tuple(env[ch] for ch in s)]
                p = e if p is None else _mul(p, e)
            vals.append(p)
        out[m] = sum_fast(vals)
    return finish(out, np.result_type(*[dtype_of(o) for o in ops]))


@implements('angle')
def f_angle(z, deg=False):
    z = asarr(z)
    if isinstance(z, SymArray) and z.is_concrete():
        return np.angle(z.concrete(), deg)
    raise Unsupported("angle of symbolic")


@implements('median')
def f_median(a, axis=None, **k):
    a = asarr(a)
    if axis is None:
        v = _sort1(obj(a).reshape(-1))
        n = len(v)
        return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2
    raise Unsupported("median axis")


@implements('linalg.norm', 'norm')
def f_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    a = np.abs(x)
    return np.sqrt(reduce_(np.add, a * a, axis, keepdims))


@implements('trapezoid', 'trapz')
def f_trapz(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    if x is not None:
        d = np.diff(x)
    else:
        d = dx
    s1 = [slice(None)] * y.ndim
    s2 = [slice(None)] * y.ndim
    s1[axis], s2[axis] = slice(1, None), slice(None, -1)
    return f_sum((y[tuple(s1)] + y[tuple(s2)]) * d / 2, axis)


@implements('gradient')
def f_gradient(f, *a, **k):
    raise Unsupported("gradient")


@implements('copyto')
def f_copyto(dst, src, casting='same_kind', where=True):
    if where is not True:
        dst[...] = f_where(where, src, dst)
    else:
        dst[...] = src


@implements('may_share_memory', 'shares_memory')
def f_shares(a, b, *x, **k):
    return np.may_share_memory(obj(a), obj(b))


@implements('result_type')
def f_result_type(*a):
    return np.result_type(*[weak(x) if isinstance(x, (_nd, Sym)) else x
                            for x in a])


@implements('array_repr', 'array_str', 'array2string')
def f_repr(a, *x, **k):
    return repr(a)


@implements('nan_to_num')
def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = np.finfo(rdt(dtype_of(x))).max
    r = f_where(np.isnan(x), nan, x)
    r = f_where(mkarr_and(np.isinf(x), x > 0), big if posinf is None else posinf,
                r)
    r = f_where(mkarr_and(np.isinf(x), x < 0), -big if neginf is None else
                neginf, r)
    if not copy:
        x[...] = r
        return x
    return r


def mkarr_and(a, b):
    return np.logical_and(a, b)


@implements('take_along_axis')
def f_take_along_axis(arr, indices, axis):
    if not isinstance(indices, SymArray):
        return SymArray(np.take_along_axis(obj(arr), indices, axis),
                        dtype_of(arr))
    out = np.empty(indices.shape, dtype=object)
    A = asarr(arr)
    for m in np.ndindex(*indices.shape):
        j = list(m)
        j[axis] = indices.raw()[m]
        out[m] = A[tuple(j)]
    return SymArray(out, dtype_of(arr))


@implements('take')
def f_take(a, indices, axis=None, **k):
    if isinstance(indices, SymArray) and not indices.is_concrete():
        if axis is None:
            return asarr(a).reshape(-1)[indices]
        idx = [slice(None)] * np.ndim(a)
        idx[axis] = indices
        return asarr(a)[tuple(idx)]
    if isinstance(indices, SymArray):
        indices = indices.concrete()
    return SymArray(np.take(obj(a), indices, axis), dtype_of(a))


# structural functions: run natively on object storage, re-tag
STRUCT = set('''concatenate stack hstack vstack dstack column_stack reshape ravel
transpose swapaxes moveaxis rollaxis expand_dims squeeze flip fliplr flipud roll
rot90 tile repeat pad broadcast_to broadcast_arrays atleast_1d atleast_2d
atleast_3d split array_split hsplit vsplit copy append insert delete diag diagonal
tril triu resize trim_zeros fftshift ifftshift compress extract select ascontiguousarray
block meshgrid apply_along_axis put_along_axis trace convolve correlate kron
'''.split())
SHAPEONLY = {'shape', 'ndim', 'size'}


def _conv_struct(x):
    if isinstance(x, SymArray):
        return x.raw()
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, _nd) and x.dtype != OBJ:
        return x
    if isinstance(x, (list, tuple)):
        if has_sym(x):
            return type(x)(_conv_struct(e) for e in x)
        return x
    return x


def _retag(r, tag):
    if isinstance(r, _nd):
        if r.dtype == OBJ:
            return SymArray(cast_obj(r, tag) if tag.kind in 'c' else r, tag) \
                if r.ndim else r.item()
        return r
    if isinstance(r, tuple):
        return tuple(_retag(e, tag) for e in r)
    if isinstance(r, list):
        return [_retag(e, tag) for e in r]
    return r


def _collect_dt(args, out):
    for a in args:
        if isinstance(a, (SymArray, Sym)):
            out.append(a.dtype)
        elif isinstance(a, _nd) and a.dtype != OBJ and a.dtype.kind in 'fc':
            out.append(a.dtype)
        elif isinstance(a, (list, tuple)):
            _collect_dt(a, out)
    return out


def func_dispatch(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, '__module__', '') or ''
    if name in FN and not (mod.endswith('fft') and name not in ('fftshift',
                                                                'ifftshift')):
        return FN[name](*args, **kwargs)
    if 'fft' in mod and name in FFTS:
        return FFTS[name](*args, **kwargs)
    if name in SHAPEONLY:
        return func(*[obj(a) if has_sym(a) else a for a in args], **kwargs)
    if name in STRUCT:
        dts = _collect_dt(list(args) + list(kwargs.values()), [])
        # only array operands (first argument) determine the tag for pad/roll/..
        first = _collect_dt([args[0]] if args else [], [])
        tag = np.result_type(*(first or dts)) if name not in (
            'append', 'insert', 'where', 'convolve', 'correlate', 'kron') else \
            np.result_type(*dts)
        a2 = [_conv_struct(a) for a in args]
        k2 = {k: _conv_struct(v) for k, v in kwargs.items() if k != 'dtype'}
        if name == 'pad' and k2.get('mode', a2[2] if len(a2) > 2 else 'constant') \
                in ('mean', 'median', 'linear_ramp', 'maximum', 'minimum'):
            raise Unsupported("np.pad mode")
        r = func(*a2, **k2)
        if kwargs.get('dtype') is not None:
            return _retag(r, np.dtype(kwargs['dtype'])).astype(kwargs['dtype'])
        return _retag(r, tag)
    # everything concrete -> call numpy
    if _all_concrete(args) and _all_concrete(list(kwargs.values())):
        a2 = [_concretize(a) for a in args]
        k2 = {k: _concretize(v) for k, v in kwargs.items()}
        r = func(*a2, **k2)
        return to_sym(r)
    raise Unsupported("numpy function %s.%s on symbolic values" % (mod, name))


def _all_concrete(args):
    for a in args:
        if isinstance(a, SymArray):
            if not a.is_concrete():
                return False
        elif isinstance(a, Sym):
            if not (isinstance(a, Num) and a.is_const()):
                return False
        elif isinstance(a, (list, tuple)):
            if not _all_concrete(a):
                return False
        elif isinstance(a, _nd) and a.dtype == OBJ:
            if has_symbolic(a):
                return False
    return True


def _concretize(a):
    if isinstance(a, SymArray):
        return a.concrete()
    if isinstance(a, Num):
        return a.const()
    if isinstance(a, (list, tuple)):
        return type(a)(_concretize(e) for e in a)
    return a


def to_sym(r):
    if isinstance(r, _nd) and not isinstance(r, SymArray) and \
            r.dtype.kind in 'fc' and core.ENG is not None and r.ndim:
        return SymArray(r.astype(object), r.dtype)
    if isinstance(r, tuple):
        return tuple(to_sym(e) for e in r)
    return r


SymArray.__array_ufunc__ = lambda self, ufunc, method, *inputs, **kw: \
    ufunc_dispatch(ufunc, method, inputs, kw)
SymArray.__array_function__ = lambda self, func, types, args, kwargs: \
    func_dispatch(func, args, kwargs)


# ================================================================ FFT
def _coef_tensor(raw, axis=-1):
    ids = sorted({i for e in raw.ravel() for i in as_num(e).c})
    pos = {i: p for p, i in enumerate(ids)}
    T = np.zeros((len(ids),) + raw.shape, dtype=complex)
    bad = {}        # rows with possibly non-finite entries
    for m in np.ndindex(*raw.shape):
        n = as_num(raw[m])
        if n.special:
            f = [q for q in n.fl() if q is not False]
            if core.ENG is None or any(q is True for q in f) or str(
                    core.ENG._feasible(core.zor(*f))) != 'unsat':
                if core.ENG is None or any(q is True for q in f):
                    raise Unsupported("FFT of non-finite values")
                row = list(m)
                row[axis] = 0
                bad.setdefault(tuple(row), []).extend(f)
        for i, v in n.c.items():
            T[(pos[i],) + m] = v
    return ids, T, bad


def _from_tensor(ids, T, cplx, bad=None, axis=-1):
    out = _from_tensor_(ids, T, cplx)
    if bad:         # a non-finite input makes its whole transform NaN
        for m in np.ndindex(*out.shape):
            row = list(m)
            row[axis] = 0
            if tuple(row) in bad:
                n = out[m]
                out[m] = Num(n.c, n.cplx, False, False, False,
                             core.zor(*bad[tuple(row)]))
    return out


def _from_tensor_(ids, T, cplx):
    out = np.empty(T.shape[1:], dtype=object)
    thr = 0.
    for m in np.ndindex(*out.shape):
        col = T[(slice(None),) + m]
        if cplx:
            out[m] = Num({i: complex(v) for i, v in zip(ids, col) if v != 0},
                         True)
        else:
            out[m] = Num({i: float(v.real) for i, v in zip(ids, col)
                          if v.real != 0})
    return out


def _mkfft(f, kind):
    def g(x, n=None, axis=-1, norm=None, overwrite_x=False, workers=None, *,
          plan=None, out=None, axes=None):
        if not has_sym(x):
            raise AssertionError
        raw = obj(x)
        dt = dtype_of(x)
        ids, T, bad = _coef_tensor(raw, axis)
        ax = axis if axis < 0 else axis + 1
        if kind == 'c2c':
            R = f(T, n=n, axis=ax, norm=norm)
            return SymArray(_from_tensor(ids, R, True, bad, axis), cdt(dt))
        if kind == 'r2c':
            if dt.kind == 'c':
                raise TypeError("rfft of complex input")
            R = f(T.real, n=n, axis=ax, norm=norm)
            return SymArray(_from_tensor(ids, R, True, bad, axis), cdt(dt))
        if kind == 'c2r':
            # Real-linear, not complex-linear, but each coefficient multiplies
            # a real atom, so apply per atom
            R = f(T, n=n, axis=ax, norm=norm)
            return SymArray(_from_tensor(ids, R.astype(complex), False, bad, axis),
                            rdt(cdt(dt)))
    return g


FFTS = {
    'fft': _mkfft(np.fft.fft, 'c2c'), 'ifft': _mkfft(np.fft.ifft, 'c2c'),
    'rfft': _mkfft(np.fft.rfft, 'r2c'), 'irfft': _mkfft(np.fft.irfft, 'c2r'),
}


def shim_fft(real, name):
    """Replacement for scipy.fft / numpy.fft functions in module globals."""
    def g(x, *a, **k):
        if has_sym(x):
            if name in FFTS:
                return FFTS[name](x, *a, **k)
            k.pop('workers', None)
            r = getattr(np.fft, name)(x, *a, **k)
            return r
        return to_sym(real(x, *a, **k))
    g.__name__ = name
    return g


# ================================================================ np shim
def active():
    return core.ENG is not None


class NPShim(types.ModuleType):
    """Stands in for `numpy` in the modules under analysis."""

    def __init__(self):
        super().__init__('numpy')
        self.fft = _FFTNS()

    def __getattr__(self, name):
        return getattr(np, name)

    def zeros(self, shape, dtype=None, order='C', **k):
        dt = np.dtype(dtype or float)
        if not active() or dt.kind not in 'fciub':
            return np.zeros(shape, dt, order)
        return SymArray(_full(_shp(shape), dt.type(0) if dt.kind in 'iub' else
                              (np.complex128(0) if dt.kind == 'c' else
                               np.float64(0))), dt)

    def ones(self, shape, dtype=None, order='C', **k):
        dt = np.dtype(dtype or float)
        if not active() or dt.kind not in 'fciub':
            return np.ones(shape, dt, order)
        return SymArray(_full(_shp(shape), cast_scalar(1, dt)), dt)

    def empty(self, shape, dtype=None, order='C', **k):
        dt = np.dtype(dtype or float)
        if not active() or dt.kind not in 'fciub':
            return np.empty(shape, dt, order)
        # uninitialised memory: NaN for floats so that any use is visible
        v = {'f': np.float64('nan'), 'c': np.complex128(complex('nan')),
             'b': np.bool_(False)}.get(dt.kind, dt.type(77) if dt.kind in 'iu'
                                       else None)
        return SymArray(_full(_shp(shape), v), dt)

    def full(self, shape, fill_value, dtype=None, order='C', **k):
        if not active():
            return np.full(shape, fill_value, dtype, order)
        dt = np.dtype(dtype) if dtype is not None else dtype_of(fill_value)
        if dt.kind not in 'fciub':
            return np.full(shape, fill_value, dtype, order)
        a = SymArray(_full(_shp(shape), cast_scalar(0, dt)), dt)
        a[...] = fill_value
        return a

    def zeros_like(self, x, dtype=None, *a, shape=None, **k):
        if not active():
            return np.zeros_like(x, dtype, *a, shape=shape, **k)
        return self.zeros(np.shape(x) if shape is None else shape,
                          dtype or dtype_of(x))

    def ones_like(self, x, dtype=None, *a, shape=None, **k):
        if not active():
            return np.ones_like(x, dtype, *a, shape=shape, **k)
        return self.ones(np.shape(x) if shape is None else shape,
                         dtype or dtype_of(x))

    def empty_like(self, x, dtype=None, *a, shape=None, **k):
        if not active():
            return np.empty_like(x, dtype, *a, shape=shape, **k)
        return self.empty(np.shape(x) if shape is None else shape,
                          dtype or dtype_of(x))

    def full_like(self, x, v, dtype=None, *a, shape=None, **k):
        if not active():
            return np.full_like(x, v, dtype, *a, shape=shape, **k)
        return self.full(np.shape(x) if shape is None else shape, v,
                         dtype or dtype_of(x))

    def asarray(self, x, dtype=None, *a, **k):
        return self._as(x, dtype, copy=False)

    asanyarray = ascontiguousarray = asfortranarray = asarray

    def array(self, x, dtype=None, *a, copy=True, ndmin=0, **k):
        r = self._as(x, dtype, copy=copy, ndmin=ndmin)
        return r

    def _as(self, x, dtype, copy, ndmin=0):
        if not active() or not has_sym(x):
            r = np.array(x, dtype=dtype, ndmin=ndmin) if copy or ndmin else \
                np.asarray(x, dtype=dtype)
            if active() and r.ndim and r.dtype.kind in 'fc' and \
                    not (isinstance(x, _nd) and not copy and r is x):
                r = SymArray(r.astype(object), r.dtype)
            return r
        if isinstance(x, SymArray):
            r = x.copy() if copy else x
        elif isinstance(x, Sym):
            if dtype is not None:
                x = cast_scalar(x, np.dtype(dtype))
            r = SymArray(obj(x), x.dtype)
        elif isinstance(x, _nd):
            r = SymArray(x.copy() if copy else x, dtype_of(x))
        else:
            r = _arr_from_seq(x)
        if dtype is not None and np.dtype(dtype) != r.dtype:
            r = r.astype(dtype)
        while r.ndim < ndmin:
            r = r[None]
        return r

    # scalar-safe wrappers for functions that look at dtype of objects
    def isinf(self, x, *a, **k):
        return np.isinf(x, *a, **k)

    def arange(self, *a, **k):
        if any(core.is_sym(v) for v in a):
            if not all(not core.is_sym(v) or as_num(v).isint for v in a):
                raise Unsupported("arange of symbolic reals")
            a = [int(v) for v in a]
        return np.arange(*a, **k)

    def linspace(self, start, stop, num=50, *a, **k):
        if core.is_sym(num):
            num = int(num)
        return np.linspace(start, stop, num, *a, **k)

    def fromiter(self, it, dtype, count=-1):
        return self.array(list(it), dtype=dtype)


def _shp(shape):
    if isinstance(shape, (list, tuple)):
        return tuple(builtins.int(s) for s in shape)
    return builtins.int(shape)


class _FFTNS:
    def __getattr__(self, name):
        real = getattr(np.fft, name)
        if name in ('fft', 'ifft', 'rfft', 'irfft', 'fftshift', 'ifftshift'):
            return shim_fft(real, name)
        return real


NP = NPShim()


# ================================================================ builtins
def b_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymArray):
            x = x.item()
        if isinstance(x, Num):
            r = core.eng().trunc(x)
            return builtins.int(r.const()) if r.is_const() else r
        if isinstance(x, SBool):
            return x.num()
    return builtins.int(*a, **k)


def b_float(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymArray):
            x = x.item()
        if isinstance(x, Sym):
            return cast_scalar(x, np.dtype('float64'))
    return builtins.float(*a)


def b_round(x, n=None):
    if isinstance(x, SymArray) and x.ndim == 0:
        x = x.item()
    if isinstance(x, Num):
        r = x.__round__(n)
        return r
    return builtins.round(x) if n is None else builtins.round(x, n)


def _mm(name, f2, real):
    def g(*a, **k):
        vals = a[0] if len(a) == 1 and not isinstance(a[0], Sym) else a
        if isinstance(vals, SymArray) or k:
            if k and not has_sym(list(vals)):
                return real(*a, **k)
            if k:
                raise Unsupported("%s with keywords" % name)
        vals = list(vals)
        if not builtins.any(isinstance(v, (Sym, SymArray)) for v in vals):
            return real(*a, **k)
        vals = [v.item() if isinstance(v, SymArray) else v for v in vals]
        acc = vals[0]
        for v in vals[1:]:
            acc = f2(acc, v)
        return acc
    g.__name__ = name
    return g


b_min = _mm('min', py_min2, builtins.min)
b_max = _mm('max', py_max2, builtins.max)


def b_abs(x):
    return abs(x)


def b_sum(it, start=0):
    acc = start
    for v in it:
        acc = acc + v
    return acc


def b_bool(x=False):
    return builtins.bool(x)


def b_complex(*a):
    if builtins.any(isinstance(x, Sym) for x in a):
        re = as_num(a[0])
        if len(a) > 1:
            re = re + as_num(a[1]).scale(1j)
        return cast_scalar(re, np.dtype('complex128'))
    return builtins.complex(*a)


BUILTINS = dict(int=b_int, float=b_float, round=b_round, min=b_min, max=b_max,
                sum=b_sum, complex=b_complex)
