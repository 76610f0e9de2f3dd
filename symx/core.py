# -*- coding: utf-8 -*-
"""Symbolic scalars and the path-forking engine.

Every symbolic number (`Num`) is a linear form  c0 + sum_i c_i * a_i  with complex
float coefficients over real-valued *atoms* a_i.  Atoms are inputs, monomials of
other atoms, gated atoms If(cond, a, 0), quotients, square roots, integer roundings
or purified transcendental functions; each atom has a z3 constant and (where it is
not an input) a defining constraint.  Polynomials therefore have a canonical form, and
linear pipelines (FFTs, windows, sums) stay linear.  All decisions are z3's.
"""
import math
import os
import time
from fractions import Fraction
import numpy as np
import z3


SLOWQ = bool(os.environ.get('SYMX_Q'))


def slowq(t0, r):
    import traceback
    d = time.time() - t0
    if d > 1:
        fr = [f for f in traceback.extract_stack() if '/symx/' not in f.filename
              or 'check.py' in f.filename][-3:]
        print('SLOW %.1fs %s %s' % (d, r, ' < '.join(
            '%s:%d' % (f.filename[-24:], f.lineno) for f in fr[::-1])),
            flush=True)


class Unsupported(Exception):
    """The symbolic interpreter has no encoding for this operation."""


class Inconclusive(Exception):
    """Solver answered `unknown` or a limit was exceeded."""


class _Abort(BaseException):
    """Current path is infeasible / abandoned."""


ENG = None  # current engine
TRACK = None  # prange access tracker


def eng():
    if ENG is None:
        raise Unsupported("symbolic value used outside an engine run")
    return ENG


def set_engine(e):
    global ENG
    ENG = e


# ---------------------------------------------------------------- z3 helpers
def rv(c):
    """Exact z3 rational of a float."""
    c = float(c)
    if c != c or c in (math.inf, -math.inf):
        raise Unsupported("non-finite constant in a real term")
    if c == int(c) and abs(c) < 1e15:
        return z3.RealVal(int(c))
    fr = Fraction(c)
    return z3.Q(fr.numerator, fr.denominator)


def rv_r(c, bits=44):
    """Rounded z3 rational (absolute error <= 2**-(bits+1)) and the float used."""
    n = round(float(c) * (1 << bits))
    return z3.Q(n, 1 << bits), n / (1 << bits)


def zand(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def zor(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def znot(c):
    if c is True:
        return False
    if c is False:
        return True
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def zite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else znot(c)
    if isinstance(a, bool):
        a_ = z3.BoolVal(a)
    else:
        a_ = a
    b_ = z3.BoolVal(b) if isinstance(b, bool) else b
    return z3.If(c, a_, b_)


def tobool(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


class Atom:
    __slots__ = ('idx', 'z', 'defs', 'nl', 'kind', 'info', 'name', 'lo', 'hi',
                 'isint', 'deps')

    def __init__(self, idx, z, kind, info=None, name=None, lo=None, hi=None,
                 isint=False):
        self.idx, self.z, self.kind, self.info = idx, z, kind, info
        self.name, self.lo, self.hi, self.isint = name, lo, hi, isint
        self.defs = []
        self.nl = ()            # nonlinear defining equations
        self.deps = None


# ---------------------------------------------------------------- scalars
_NUM = (int, float, complex, np.number, np.bool_)


def is_sym(x):
    return isinstance(x, (Num, SBool))


def q12(c):
    """quantise a coefficient for canonical keys (about 11 significant digits)."""
    if c == 0:
        return 0.
    return float('%.10e' % c)


class Sym:
    __array_priority__ = 1e6
    __slots__ = ()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .arr import func_dispatch
        return func_dispatch(func, args, kwargs)

    # scalar-like array protocol
    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self

    def copy(self):
        return self

    def squeeze(self, axis=None):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def as_num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, SBool):
        return x.num()
    if isinstance(x, (bool, np.bool_)):
        return Num({0: 1.0} if x else {}, isint=True)
    if isinstance(x, (int, np.integer)):
        return Num({0: float(x)} if x else {}, isint=True)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return Num({}, nan=True)
        if x == math.inf:
            return Num({}, pinf=True)
        if x == -math.inf:
            return Num({}, ninf=True)
        return Num({0: x} if x else {})
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        if x.real != x.real or x.imag != x.imag:
            return Num({}, nan=True, cplx=True)
        if math.isinf(x.real) or math.isinf(x.imag):
            return Num({}, pinf=True, cplx=True)
        return Num({0: x} if x else {}, cplx=True)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return as_num(x[()] if x.dtype != object else x.item())
    if isinstance(x, np.ndarray) and x.size == 1:
        return as_num(x.reshape(-1)[0])
    raise Unsupported("cannot make a symbolic number of %r" % type(x))


class Num(Sym):
    __slots__ = ('c', 'cplx', 'isint', 'pinf', 'ninf', 'nan', '_key')

    def __init__(self, c, cplx=False, isint=False, pinf=False, ninf=False,
                 nan=False):
        self.c, self.cplx, self.isint = c, cplx, isint
        self.pinf, self.ninf, self.nan = pinf, ninf, nan
        self._key = None

    # ---------------------------------------------------------- inspection
    @property
    def dtype(self):
        return np.dtype('complex128' if self.cplx else
                        ('int64' if self.isint else 'float64'))

    @property
    def special(self):
        return not (self.pinf is False and self.ninf is False and
                    self.nan is False)

    def is_const(self):
        if self.special and not all(isinstance(f, bool) for f in
                                    (self.pinf, self.ninf, self.nan)):
            return False
        return all(i == 0 for i in self.c)

    def const(self):
        """Concrete python value, if constant."""
        if self.nan is True:
            return complex(math.nan, 0) if self.cplx else math.nan
        if self.pinf is True:
            return complex(math.inf, 0) if self.cplx else math.inf
        if self.ninf is True:
            return complex(-math.inf, 0) if self.cplx else -math.inf
        v = self.c.get(0, 0.)
        if self.cplx:
            return complex(v)
        v = v.real if isinstance(v, complex) else v
        return int(round(v)) if self.isint else float(v)

    def lin_ok(self):
        return not self.special

    def key(self):
        if self._key is None:
            self._key = tuple(sorted((i, q12(complex(v).real),
                                      q12(complex(v).imag))
                                     for i, v in self.c.items()
                                     if abs(v) > 1e-300))
        return self._key

    def fl(self):
        return (self.pinf, self.ninf, self.nan)

    @property
    def real(self):
        if not self.cplx:
            return self
        return Num({i: complex(v).real for i, v in self.c.items()
                    if complex(v).real != 0}, False, False, *self.fl())

    @property
    def imag(self):
        if not self.cplx:
            return Num({})
        return Num({i: complex(v).imag for i, v in self.c.items()
                    if complex(v).imag != 0}, False, False, *self.fl())

    def conjugate(self):
        if not self.cplx:
            return self
        return Num({i: complex(v).conjugate() for i, v in self.c.items()}, True,
                   False, *self.fl())
    conj = conjugate

    @property
    def T(self):
        return self

    def astype(self, dt, *a, **k):
        from .arr import cast_scalar
        return cast_scalar(self, np.dtype(dt))

    # ---------------------------------------------------------- z3 terms
    def z(self):
        """z3 Real term (value part; must be real)."""
        assert not self.cplx or all(complex(v).imag == 0
                                    for v in self.c.values())
        E = eng()
        terms = []
        for i, v in self.c.items():
            v = complex(v).real
            if v == 0:
                continue
            if i == 0:
                terms.append(rv(v))
            else:
                a = E.zreal(i)
                terms.append(a if v == 1 else rv(v) * a)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def zi(self):
        """z3 Int term when integral with integral coefficients."""
        E = eng()
        terms = []
        for i, v in self.c.items():
            v = complex(v).real
            if v == 0:
                continue
            if v != int(v):
                return None
            if i == 0:
                terms.append(z3.IntVal(int(v)))
            else:
                at = E.atoms[i]
                if not at.isint:
                    return None
                terms.append(at.z if v == 1 else int(v) * at.z)
        if not terms:
            return z3.IntVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def intervals(self):
        E = eng()
        lo = hi = 0.
        for i, v in self.c.items():
            v = complex(v).real
            if i == 0:
                lo += v
                hi += v
                continue
            a = E.atoms[i]
            l = -math.inf if a.lo is None else a.lo
            h = math.inf if a.hi is None else a.hi
            if v >= 0:
                lo += v * l if v else 0
                hi += v * h if v else 0
            else:
                lo += v * h
                hi += v * l
        if lo < 0 and E.nonneg and self.key() in E.nonneg:
            # an absolute value (float-rounded encoding), less some constant
            lo = min(0., complex(self.c.get(0, 0.)).real - E.nonneg[self.key()])
        return lo, hi

    # ---------------------------------------------------------- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = as_num(o)
        c = dict(self.c)
        for i, v in o.c.items():
            w = c.get(i, 0.) + v
            if w == 0:
                c.pop(i, None)
            else:
                c[i] = w
        cplx = self.cplx or o.cplx
        if not (self.special or o.special):
            return Num(c, cplx, self.isint and o.isint)
        nan = zor(self.nan, o.nan, zand(self.pinf, o.ninf),
                  zand(self.ninf, o.pinf))
        pinf = zand(znot(nan), zor(self.pinf, o.pinf))
        ninf = zand(znot(nan), zor(self.ninf, o.ninf))
        return Num(c, cplx, False, pinf, ninf, nan)
    __radd__ = __add__

    def __neg__(self):
        return Num({i: -v for i, v in self.c.items()}, self.cplx, self.isint,
                   self.ninf, self.pinf, self.nan)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return self + (-as_num(o))

    def __rsub__(self, o):
        return as_num(o) + (-self)

    def scale(self, k):
        """Multiply by a finite python constant."""
        cplx = self.cplx or isinstance(k, complex)
        if isinstance(k, complex) and k.imag == 0 and not self.special:
            kk = k.real
        else:
            kk = k
        if kk == 0:
            c = {}
        else:
            c = {i: v * kk for i, v in self.c.items()}
        isint = self.isint and not isinstance(k, complex) and k == int(k)
        if not self.special:
            return Num(c, cplx, isint)
        if kk == 0:
            nan = zor(self.nan, self.pinf, self.ninf)
            return Num(c, cplx, False, False, False, nan)
        if not isinstance(kk, complex) and kk < 0:
            return Num(c, cplx, False, self.ninf, self.pinf, self.nan)
        return Num(c, cplx, False, self.pinf, self.ninf, self.nan)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = as_num(o)
        if o.is_const() and not o.special:
            return self.scale(_cst(o))
        if self.is_const() and not self.special:
            return o.scale(_cst(self))
        E = eng()
        c = {}
        for i, v in self.c.items():
            for j, w in o.c.items():
                k = E.monomial(i, j)
                for kk, f in k:
                    x = c.get(kk, 0.) + v * w * f
                    if x == 0:
                        c.pop(kk, None)
                    else:
                        c[kk] = x
        cplx = self.cplx or o.cplx
        if not (self.special or o.special):
            return Num(c, cplx, self.isint and o.isint)
        if cplx:
            nan = zor(self.nan, o.nan)
            inf = zor(self.pinf, self.ninf, o.pinf, o.ninf)
            return Num(c, True, False, zand(inf, znot(nan)), False, nan)
        # real special multiplication
        si, oi = zor(self.pinf, self.ninf), zor(o.pinf, o.ninf)
        sz = zand(znot(si), znot(self.nan), E.eq0(self))
        oz = zand(znot(oi), znot(o.nan), E.eq0(o))
        nan = zor(self.nan, o.nan, zand(si, oz), zand(oi, sz))
        sp, op = self._pos(), o._pos()
        same = zor(zand(sp, op), zand(znot(sp), znot(op)))
        inf = zand(zor(si, oi), znot(nan))
        return Num(c, False, False, zand(inf, same), zand(inf, znot(same)), nan)
    __rmul__ = __mul__

    def _pos(self):
        return zor(self.pinf, zand(znot(self.ninf), eng().gt0(self)))

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return eng().div(self, as_num(o))

    def __rtruediv__(self, o):
        return eng().div(as_num(o), self)

    def __floordiv__(self, o):
        o = as_num(o)
        r = eng().floor(eng().div(self, o))
        return r

    def __rfloordiv__(self, o):
        return as_num(o).__floordiv__(self)

    def __mod__(self, o):
        o = as_num(o)
        return self - (self // o) * o

    def __rmod__(self, o):
        return as_num(o) % self

    def __pow__(self, p):
        if isinstance(p, np.ndarray) and p.ndim:
            return NotImplemented
        if is_sym(p):
            p = as_num(p)
            if p.is_const():
                p = p.const()
            else:
                return eng().fn2('pow', self, p)
        p = p.item() if isinstance(p, np.generic) else p
        if isinstance(p, float) and p == int(p):
            p = int(p)
        if isinstance(p, int):
            if p == 0:
                return Num({0: 1.})
            if p < 0:
                return as_num(1.) / (self ** (-p))
            out = self
            for _ in range(p - 1):
                out = out * self
            return out
        if p == .5:
            return eng().sqrt(self)
        return eng().fn2('pow', self, as_num(p))

    def __rpow__(self, b):
        return eng().fn2('pow', as_num(b), self)

    def __abs__(self):
        return eng().abs(self)

    def __round__(self, n=None):
        if n:
            return eng().rint(self.scale(10.**n)).scale(10.**-n)
        return eng().rint(self)

    def __floor__(self):
        return eng().floor(self)

    def __ceil__(self):
        return -eng().floor(-self)

    def __trunc__(self):
        return eng().trunc(self)

    # ---------------------------------------------------------- comparisons
    def __lt__(self, o):
        return eng().cmp('<', self, o)

    def __le__(self, o):
        return eng().cmp('<=', self, o)

    def __gt__(self, o):
        return eng().cmp('<', o, self)

    def __ge__(self, o):
        return eng().cmp('<=', o, self)

    def __eq__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return eng().cmp('==', self, o)

    def __ne__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if o is None or isinstance(o, (str, tuple, list)):
            return True
        r = eng().cmp('==', self, o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = object.__hash__

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __int__(self):
        return eng().concretize(eng().trunc(self))

    def __index__(self):
        if not self.isint:
            raise TypeError("non-integer index")
        return eng().concretize(self)

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        if self.is_const():
            return complex(self.const())
        raise Unsupported("complex() of a symbolic value")

    def __repr__(self):
        return "Num(%s%s)" % ({i: v for i, v in list(self.c.items())[:6]},
                              '' if not self.special else ',special')

    # object-array method fallbacks
    def sqrt(self):
        return eng().sqrt(self)

    def log2(self):
        return eng().log2(self)

    def log(self):
        return eng().log2(self).scale(math.log(2))

    def exp(self):
        return eng().fn('exp', self)

    def rint(self):
        return eng().rint(self)


def _cst(n):
    v = n.c.get(0, 0.)
    if n.cplx:
        return complex(v)
    return v.real if isinstance(v, complex) else v


class SBool(Sym):
    __slots__ = ('b',)
    dtype = np.dtype(bool)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return eng().branch(self.b)

    def num(self):
        return eng().gate(self.b, Num({0: 1.}, isint=True))

    @staticmethod
    def _b(o):
        if isinstance(o, SBool):
            return o.b
        if isinstance(o, (bool, np.bool_)):
            return bool(o)
        if isinstance(o, (int, np.integer)) and o in (0, 1):
            return bool(o)
        if isinstance(o, Num):
            r = o != 0
            return r if isinstance(r, bool) else r.b
        raise Unsupported("bool op with %r" % type(o))

    def __and__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return mkbool(zand(self.b, self._b(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return mkbool(zor(self.b, self._b(o)))
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return mkbool(zite(self.b, znot(self._b(o)), self._b(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(znot(self.b))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SBool)):
            return ~(self ^ o) if not isinstance(self ^ o, bool) else \
                (not (self ^ o))
        return self.num() == o

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r
    __hash__ = object.__hash__

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def astype(self, dt, *a, **k):
        from .arr import cast_scalar
        return cast_scalar(self, np.dtype(dt))

    # arithmetic through Num
    def __add__(self, o): return self.num() + o
    __radd__ = __add__
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return gate_any(self.b, o)
    __rmul__ = __mul__
    def __truediv__(self, o): return self.num() / o
    def __rtruediv__(self, o): return o / self.num()
    def __neg__(self): return -self.num()
    def __lt__(self, o): return self.num() < o
    def __le__(self, o): return self.num() <= o
    def __gt__(self, o): return self.num() > o
    def __ge__(self, o): return self.num() >= o
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __repr__(self): return "SBool(%s)" % str(self.b)[:80]


def gate_any(b, o):
    """b * o"""
    if isinstance(o, SBool):
        o = o.num()
    return eng().gate(b, as_num(o))


def mkbool(b):
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SBool(b)


def bterm(x):
    """python bool / SBool -> z3 or bool"""
    return SBool._b(x)


def ite(c, a, b):
    """Scalar if-then-else over numbers or booleans."""
    c = bterm(c)
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (SBool, bool, np.bool_)) and \
            isinstance(b, (SBool, bool, np.bool_)):
        return mkbool(zite(c, bterm(a), bterm(b)))
    return eng().ite(c, as_num(a), as_num(b))


# ---------------------------------------------------------------- engine
class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.checks = 0
        self.solver_s = 0.
        self.unknown = 0
        self.branch_queries = 0
        self.max_atoms = 0
        self.merged = 0      # loop-iteration branches merged
        self.unmerged = 0

    def asdict(self):
        return dict(self.__dict__)


class Violation(Exception):
    def __init__(self, msg, inputs, label=''):
        super().__init__(msg)
        self.msg, self.inputs, self.label = msg, inputs, label


class _Local:
    def __init__(self, log):
        self.log, self.decisions, self.pending, self.saved = log, [], [], {}


class _Unset:
    pass


_UNSET = _Unset()


class Poison:
    """A variable whose per-branch values cannot be merged."""
    def _no(self, *a, **k):
        raise Unsupported("variable differs in kind between branches")
    __getattr__ = __add__ = __radd__ = __mul__ = __getitem__ = __call__ = _no
    __sub__ = __rsub__ = __lt__ = __gt__ = __le__ = __ge__ = __bool__ = _no


def _cellval(c):
    try:
        return c.cell_contents
    except ValueError:
        return _UNSET


def _setcell(c, v):
    if v is _UNSET:
        try:
            del c.cell_contents
        except ValueError:
            pass
    else:
        c.cell_contents = v


def _snap(r):
    return list(r.reshape(-1)) if r.flags.c_contiguous else list(r.ravel())


def _restore(r, vals):
    if r.flags.c_contiguous:
        f = r.reshape(-1)
        for i, v in enumerate(vals):
            f[i] = v
    else:
        for i, v in zip(np.ndindex(*r.shape), vals):
            r[i] = v


def _mergeval(c, a, b):
    if a is _UNSET or b is _UNSET:
        return Poison()
    if a is b:
        return a
    sc = (int, float, complex, np.number, np.bool_, bool)
    if isinstance(a, (SBool, bool, np.bool_)) and \
            isinstance(b, (SBool, bool, np.bool_)):
        return ite(mkbool(c), a, b)
    if isinstance(a, (Num,) + sc) and isinstance(b, (Num,) + sc):
        if isinstance(a, sc) and isinstance(b, sc) and a == b and \
                type(a) is type(b):
            return a
        return eng().ite(c, as_num(a), as_num(b))
    return Poison()


def prewrite(arr):
    """Called before `arr` (SymArray) is written."""
    L = ENG.local if ENG is not None else None
    if L is None:
        return
    r = arr
    while isinstance(r.base, np.ndarray):
        r = r.base
    r = np.ndarray.view(r, np.ndarray)
    k = r.__array_interface__['data'][0]
    if k not in L.saved or L.saved[k][0].size < r.size:
        L.saved[k] = (r, _snap(r))


class Engine:
    fork = False        # decide extrema and kernel branches by forking paths
    fnlink = True       # relate applications of one function to each other

    def __init__(self, timeout_s=60, max_paths=4000, tie=1e-7, hints=()):
        self.stats = Stats()
        self.timeout = timeout_s
        self.max_paths = max_paths
        self.tie = tie          # half-width of excluded rounding ties
        self.hints = list(hints)
        self.refine = {}        # fn-name -> list of refinement points
        self.deadline = None
        self.reset()

    # -------------------------------------------------------- per path state
    def reset(self):
        self.atoms = [Atom(0, None, 'one')]
        self.cache = {}
        self.nonneg = {}
        self.oracle = None
        self._fcache = {}
        self.inputs = {}        # name -> (kind, shape, list of atom idx ...)
        self.pc = []            # path condition / assumptions (z3 bools)
        self.log = []           # pre-decided branch log
        self.decisions = []
        self.pending = []
        self._bs = None         # branch solver (linear part)
        self._bn = None         # branch solver with nonlinear definitions
        self._bn_atoms = set()
        self._bn_n = 0
        self._bs_atoms = set()
        self._bs_n = 0
        self._byname_n = -1
        self._cand = None
        self.obs = {}
        self._symcache = {}
        self._dircache = {}
        self._byname = {}
        self.local = None       # exploration of one loop iteration (merged)
        self.lpc = []

    # -------------------------------------------------------- atoms
    def new_atom(self, kind, info=None, name=None, lo=None, hi=None,
                 isint=False):
        idx = len(self.atoms)
        nm = name or "%s_%d" % (kind, idx)
        z = z3.Int(nm) if isint else z3.Real(nm)
        a = Atom(idx, z, kind, info, nm, lo, hi, isint)
        self.atoms.append(a)
        self.stats.max_atoms = max(self.stats.max_atoms, idx)
        return a

    def zreal(self, i):
        a = self.atoms[i]
        return z3.ToReal(a.z) if a.isint else a.z

    def input_real(self, name, lo=None, hi=None, isint=False):
        a = self.new_atom('in', name=name, lo=lo, hi=hi, isint=isint)
        if lo is not None:
            a.defs.append(a.z >= (rv(lo) if not isint else int(lo)))
        if hi is not None:
            a.defs.append(a.z <= (rv(hi) if not isint else int(hi)))
        a.deps = [a.idx]
        return Num({a.idx: 1.0}, isint=isint)

    def input_bool(self, name):
        return z3.Bool(name)

    def monomial(self, i, j):
        """Product of two atoms as list of (atom, factor)."""
        if i == 0:
            return [(j, 1.)]
        if j == 0:
            return [(i, 1.)]
        A, B = self.atoms[i], self.atoms[j]
        # gates: g(c,a)*b = g(c, a*b)
        if A.kind == 'gate' or B.kind == 'gate':
            cs, base = [], []
            for X, ix in ((A, i), (B, j)):
                if X.kind == 'gate':
                    cs.append(X.info[0])
                    base.append(X.info[1])
                else:
                    base.append(ix)
            cond = cs[0] if len(cs) == 1 or cs[0].eq(cs[1]) else \
                z3.And(*sorted(cs, key=lambda c: c.get_id()))
            out = []
            for k, f in self.monomial(base[0], base[1]):
                g = self.gate_atom(cond, k)
                out += [(gg, f * ff) for gg, ff in g]
            return out
        fa = A.info if A.kind == 'mono' else (i,)
        fb = B.info if B.kind == 'mono' else (j,)
        fs = tuple(sorted(fa + fb))
        # sqrt * sqrt simplification
        key = ('mono', fs)
        if key in self.cache:
            return self.cache[key]
        # simplify squares of sqrt/abs atoms
        for p in range(len(fs) - 1):
            if fs[p] == fs[p + 1] and self.atoms[fs[p]].kind == 'sqrt':
                rest = fs[:p] + fs[p + 2:]
                n = self.atoms[fs[p]].info  # Num
                out = n
                for r in rest:
                    out = out * Num({r: 1.})
                res = [(k, complex(v).real) for k, v in out.c.items()]
                self.cache[key] = res
                return res
        a = self.new_atom('mono', fs,
                          isint=False)
        t = self.zreal(fs[0])
        for f in fs[1:]:
            t = t * self.zreal(f)
        a.nl = (a.z == t,)
        if len(fs) == 2 and fs[0] == fs[1]:
            a.defs.append(a.z >= 0)
            a.lo = 0.
        a.deps = list(fs)
        # interval
        try:
            lo, hi = 1., 1.
            for f in fs:
                l, h = self.atoms[f].lo, self.atoms[f].hi
                if l is None or h is None:
                    raise ValueError
                prods = (lo * l, lo * h, hi * l, hi * h)
                lo, hi = min(prods), max(prods)
            a.lo = lo if a.lo is None else max(a.lo, lo)
            a.hi = hi
            a.defs += [a.z <= rv(hi), a.z >= rv(a.lo)]
        except ValueError:
            pass
        self.cache[key] = [(a.idx, 1.)]
        return self.cache[key]

    def gate_atom(self, c, i):
        """If(c, atom_i, 0) as list of (atom, factor)."""
        if isinstance(c, bool):
            return [(i, 1.)] if c else []
        if i and self.atoms[i].kind == 'gate':
            c0, i0 = self.atoms[i].info
            if c0.eq(c):
                return [(i, 1.)]
            if znot(c0).eq(c) or znot(c).eq(c0):
                return []
            cc = z3.And(*sorted((c0, c), key=lambda q: q.get_id()))
            return self.gate_atom(cc, i0)
        key = ('gate', c.get_id(), i)
        if key in self.cache:
            return self.cache[key]
        base = self.atoms[i]
        a = self.new_atom('gate', (c, i), isint=(i == 0 or base.isint))
        zero = z3.IntVal(0) if a.isint else z3.RealVal(0)
        val = z3.IntVal(1) if i == 0 else base.z
        a.defs.append(a.z == z3.If(c, val, zero))
        if i == 0:
            a.lo, a.hi = 0., 1.
        else:
            a.lo = None if base.lo is None else min(0., base.lo)
            a.hi = None if base.hi is None else max(0., base.hi)
        self.cache[key] = [(a.idx, 1.)]
        self._keep(c)
        return self.cache[key]

    def _keep(self, c):
        # keep AST alive so ids stay unique
        self.cache.setdefault('keep', []).append(c)

    def gate(self, c, n):
        if isinstance(c, bool):
            return n if c else Num({}, n.cplx, n.isint)
        out = {}
        for i, v in n.c.items():
            for k, f in self.gate_atom(c, i):
                out[k] = out.get(k, 0.) + v * f
        out = {k: v for k, v in out.items() if v != 0}
        if not n.special:
            return Num(out, n.cplx, n.isint)
        return Num(out, n.cplx, False, zand(c, n.pinf), zand(c, n.ninf),
                   zand(c, n.nan))

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        cplx = a.cplx or b.cplx
        va = Num(a.c, a.cplx, a.isint)
        vb = Num(b.c, b.cplx, b.isint)
        if True in (a.pinf, a.ninf, a.nan):     # value part is irrelevant
            va = vb
        elif True in (b.pinf, b.ninf, b.nan):
            vb = va
        d = va - vb
        r = vb + self.gate(c, d)
        if not cplx and len(r.c) > 1 and r.intervals()[0] < 0 and \
                lo_nonneg(va) and lo_nonneg(vb):
            self.nonneg[r.key()] = complex(r.c.get(0, 0.)).real
        r.cplx = cplx
        r.isint = a.isint and b.isint
        if a.special or b.special:
            r = Num(r.c, cplx, False, zite(c, a.pinf, b.pinf),
                    zite(c, a.ninf, b.ninf), zite(c, a.nan, b.nan))
        return r

    def extremum(self, ns, low):
        """min (low) or max of real numbers as one defined atom."""
        if not low:
            r = self.extremum([-n for n in ns], True)
            return -r
        uniq, seen = [], set()
        for n in ns:
            k = (n.key(),) + tuple(str(f) for f in n.fl())
            if k not in seen:
                seen.add(k)
                uniq.append(n)
        ns = uniq
        if len(ns) == 1:
            return ns[0]
        if self.fork and not any(n.special for n in ns):
            best = ns[0]
            for n in ns[1:]:
                if SBool(self.gt0(best - n)):
                    best = n
            return best
        isint = all(n.isint for n in ns)
        key = ('min',) + tuple((n.key(),) + tuple(str(f) for f in n.fl())
                               for n in ns)
        nan = zor(*[n.nan for n in ns])
        ninf = zor(*[n.ninf for n in ns])
        pinf = zand(*[n.pinf for n in ns])
        if key not in self.cache:
            a = self.new_atom('min', ns, isint=isint)
            fins = [znot(zor(*n.fl())) for n in ns]
            x = self.zreal(a.idx)
            for f, n in zip(fins, ns):
                a.defs.append(zor(znot(f), x <= n.z()))
            a.defs.append(zor(*[zand(f, x == n.z()) for f, n in zip(fins, ns)] +
                              [zand(*[znot(f) for f in fins])]))
            a.defs = [d for d in a.defs if d is not True]
            lo = min(n.intervals()[0] for n in ns)
            hi = max(n.intervals()[1] for n in ns)
            a.lo = lo if lo > -math.inf else None
            a.hi = hi if hi < math.inf else None
            if a.lo is not None:        # (all infinite: value irrelevant)
                a.defs.append(x >= rv(a.lo))
            if a.hi is not None:
                a.defs.append(x <= rv(a.hi))
            self.cache[key] = a.idx
        r = Num({self.cache[key]: 1.}, isint=isint)
        if any(n.special for n in ns):
            r = Num(r.c, False, False, zand(pinf, znot(nan)),
                    zand(ninf, znot(nan)), nan)
        return r

    # -------------------------------------------------------- predicates
    def eq0(self, n):
        """z3: value part == 0 (complex: both parts)."""
        if n.cplx:
            return zand(self.eq0(n.real), self.eq0(n.imag))
        if all(i == 0 for i in n.c):
            return n.c.get(0, 0.) == 0
        if self._pos_struct(n):
            return False
        return n.z() == 0

    def gt0(self, n):
        if all(i == 0 for i in n.c):
            return complex(n.c.get(0, 0.)).real > 0
        if self._pos_struct(n):
            return True
        return n.z() > 0

    def cmp(self, op, a, b):
        a, b = as_num(a), as_num(b)
        if a.cplx or b.cplx:
            if op != '==':
                # numpy orders complex lexicographically; only real parts
                raise Unsupported("ordering of complex values")
            d = a - b
            r = zand(znot(a.nan), znot(b.nan), self.eq0(d.real),
                     self.eq0(d.imag),
                     znot(zor(a.pinf, a.ninf, b.pinf, b.ninf)))
            return mkbool(r)
        d = Num(a.c) - Num(b.c)
        isint = a.isint and b.isint
        if all(i == 0 for i in d.c):
            v = complex(d.c.get(0, 0.)).real
            base = {'<': v < 0, '<=': v <= 0, '==': v == 0}[op]
        else:
            lo, hi = d.intervals()
            if op == '<' and (hi < 0 or lo >= 0):
                base = hi < 0
            elif op == '<=' and (hi <= 0 or lo > 0):
                base = hi <= 0
            elif op == '==' and (lo > 0 or hi < 0):
                base = False
            else:
                zi = d.zi() if isint else None
                t = zi if zi is not None else self._scaled(d)
                base = {'<': t < 0, '<=': t <= 0, '==': t == 0}[op]
        if not (a.special or b.special):
            return mkbool(base)
        fin = zand(znot(a.pinf), znot(a.ninf), znot(b.pinf), znot(b.ninf))
        nn = zand(znot(a.nan), znot(b.nan))
        if op == '<':
            r = zor(zand(fin, base), zand(a.ninf, znot(b.ninf)),
                    zand(b.pinf, znot(a.pinf)))
        elif op == '<=':
            r = zor(zand(fin, base), a.ninf, b.pinf)
        else:
            r = zor(zand(fin, base), zand(a.pinf, b.pinf), zand(a.ninf, b.ninf))
        return mkbool(zand(nn, r))

    def _scaled(self, d):
        """z3 term of d, scaled to leading coefficient +-1 (canonical)."""
        ks = [i for i in d.c if i != 0]
        k0 = min(ks)
        s = abs(complex(d.c[k0]).real)
        if s == 0 or s == 1:
            return d.z()
        return Num({i: v / s for i, v in d.c.items()}).z()

    # -------------------------------------------------------- nonlinear
    def norm_key(self, n):
        """(scale, key) with leading coefficient normalised to 1; n real."""
        ks = sorted(i for i in n.c if abs(n.c[i]) > 0)
        s = complex(n.c[ks[0] if ks[0] != 0 or len(ks) == 1 else ks[1]]).real
        m = Num({i: complex(v).real / s for i, v in n.c.items()})
        return s, m

    def div(self, a, b):
        if b.is_const() and not b.special:
            k = _cst(b)
            if k == 0:
                if a.cplx:
                    return Num({}, True, nan=True)
                z = self.eq0(a)
                p = self.gt0(a)
                nan = zor(a.nan, zand(z, znot(a.pinf), znot(a.ninf)))
                return Num({}, False, False,
                           zand(znot(nan), zor(a.pinf, zand(p, znot(a.ninf)))),
                           zand(znot(nan), zor(a.ninf, zand(znot(p),
                                                            znot(a.pinf)))),
                           nan)
            r = a.scale(1. / k) if not isinstance(k, complex) else \
                a.scale(1. / k)
            # divide coefficients directly (more accurate than reciprocal)
            if not isinstance(k, complex):
                r.c = {i: v / k for i, v in a.c.items()}
            r.isint = False
            return r
        if b.cplx and not b.special and \
                not any(v for v in b.imag.c.values()):
            out = self.div(a, b.real)       # structurally real denominator
            if not out.cplx:
                out = Num({k: complex(v) for k, v in out.c.items()}, True,
                          False, zor(out.pinf, out.ninf), False, out.nan)
            return out
        if b.cplx:
            bb = Num(b.c, True)
            den = (bb * bb.conjugate()).real
            num = Num(a.c, a.cplx) * bb.conjugate()
            num.cplx = True
            re = self._rdiv(num.real, den)
            im = self._rdiv(num.imag, den)
            out = re + im.scale(1j)
            out.cplx = True
            zd = self.eq0(den)
            nan = zor(a.nan, b.nan, zd)
            if a.special or b.special or zd is not False:
                inf = zand(zor(a.pinf, a.ninf), znot(nan))
                out = Num(out.c, True, False, inf, False, nan)
            return out
        if a.cplx:
            re, im = self.div(a.real, b), self.div(a.imag, b)
            out = re + im.scale(1j)
            out.cplx = True
            return out
        # real / real
        v = self._rdiv(Num(a.c), Num(b.c)) if any(b.c.values()) else Num({})
        zd = zand(self.eq0(b), znot(b.pinf), znot(b.ninf), znot(b.nan))
        if zd is False and not a.special and not b.special:
            return v
        ai, bi = zor(a.pinf, a.ninf), zor(b.pinf, b.ninf)
        az = zand(znot(ai), self.eq0(a))
        nan = zor(a.nan, b.nan, zand(ai, bi), zand(zd, az))
        inf = zand(znot(nan), zor(zand(ai, znot(bi)), zd))
        ap = a._pos()
        bp = zor(zd, b._pos())   # +0
        same = zor(zand(ap, bp), zand(znot(ap), znot(bp)))
        # x / +-inf == 0
        if bi is not False:
            v = self.gate(znot(bi), v) if not isinstance(bi, bool) else Num({})
        return Num(v.c, False, False, zand(inf, same), zand(inf, znot(same)),
                   nan)

    def _rdiv(self, n, d):
        """value part of n/d, d possibly zero (value then unconstrained)."""
        if not n.c:
            return Num({})
        if all(i == 0 for i in d.c):
            k = complex(d.c.get(0, 0.)).real
            return Num({i: v / k for i, v in n.c.items()}) if k else Num({})
        sn, nn = self.norm_key(n)
        sd, dd = self.norm_key(d)
        if nn.key() == dd.key():
            # n/d constant when d != 0
            return Num({0: sn / sd})
        key = ('div', nn.key(), dd.key())
        if key not in self.cache:
            a = self.new_atom('div', (nn, dd))
            a.nl = (z3.Implies(dd.z() != 0, a.z * dd.z() == nn.z()),)
            # denominator of one sign: interval quotient (rounded outward)
            (nl, nh), (dl, dh) = nn.intervals(), dd.intervals()
            if (dl > 1e-12 or dh < -1e-12) and max(map(abs, (nl, nh))) < 1e300:
                q = [x / y for x in (nl, nh) for y in (dl, dh)]
                w = 1e-12 * max(map(abs, q)) + 1e-300
                a.lo, a.hi = min(q) - w, max(q) + w
                if min(q) >= 0:
                    a.lo = max(a.lo, 0.)
                a.defs += [a.z >= rv(a.lo), a.z <= rv(a.hi)]
            self.cache[key] = a.idx
        return Num({self.cache[key]: sn / sd})

    def sqrt(self, n):
        if n.cplx:
            raise Unsupported("sqrt of complex")
        if n.is_const():
            v = n.const()
            return as_num(math.sqrt(v) if v >= 0 else math.nan)
        s, m = self.norm_key(Num(n.c))
        if s < 0:
            s, m = -s, -m
        # perfect square of a single variable?
        key = ('sqrt', m.key())
        if key not in self.cache:
            a = self.new_atom('sqrt', m, lo=0.)
            zm = m.z()
            a.defs.append(a.z >= 0)
            a.nl = (z3.Implies(zm >= 0, a.z * a.z == zm),)
            lo, hi = m.intervals()
            if hi < math.inf:
                a.hi = math.sqrt(max(hi, 0)) * (1 + 1e-12)
                a.defs.append(a.z <= rv(a.hi))
            self.cache[key] = a.idx
        v = Num({self.cache[key]: math.sqrt(s)})
        neg = False if self._pos_struct(n) else self.cmp('<', n, 0)
        neg = neg if isinstance(neg, bool) else neg.b
        if n.special or neg is not False:
            lo, _ = n.intervals()
            if lo >= 0:
                neg = False
            return Num(v.c, False, False, n.pinf, False, zor(n.nan, neg))
        return v

    def abs(self, n):
        if n.cplx:
            re, im = Num(n.real.c), Num(n.imag.c)
            if not im.c:
                v = self._rabs(re)
            elif not re.c:
                v = self._rabs(im)
            else:
                p = re * re + im * im
                # polynomials that are sums of squares are >= 0
                s, m = self.norm_key(p)
                if s < 0:
                    s, m = -s, -m
                key = ('sqrt', m.key())
                if key not in self.cache:
                    a = self.new_atom('sqrt', m, lo=0.)
                    a.defs += [a.z >= 0]
                    a.nl = (a.z * a.z == m.z(),)
                    l1, h1 = re.intervals()
                    l2, h2 = im.intervals()
                    mr, mi = max(abs(l1), abs(h1)), max(abs(l2), abs(h2))
                    if mr < math.inf and mi < math.inf:
                        a.hi = math.hypot(mr, mi) / math.sqrt(s) * (1 + 1e-9)
                        a.defs.append(a.z <= rv(a.hi))
                    self.cache[key] = a.idx
                v = Num({self.cache[key]: math.sqrt(s)})
            return Num(v.c, False, False, zor(n.pinf, n.ninf), False, n.nan)
        v = self._rabs(Num(n.c, isint=n.isint))
        if n.special:
            v = Num(v.c, False, False, zor(n.pinf, n.ninf), False, n.nan)
        return v

    def _rabs(self, n):
        if all(i == 0 for i in n.c):
            return Num({0: abs(complex(n.c.get(0, 0.)).real)}, isint=n.isint)
        lo, hi = n.intervals()
        if lo >= 0:
            return n
        if hi <= 0:
            return -n
        neg = self.cmp('<', n, 0)
        if isinstance(neg, bool):
            return -n if neg else n
        r = self.ite(neg.b, -n, n)
        self.nonneg[r.key()] = complex(r.c.get(0, 0.)).real
        return r

    # integer roundings ------------------------------------------------------
    def _int_atom(self, kind, n):
        key = (kind, n.key())
        if key in self.cache:
            return Num({self.cache[key]: 1.}, isint=True)
        lo, hi = n.intervals()
        a = self.new_atom(kind, n, isint=True)
        x, k = n.z(), z3.ToReal(a.z)
        if kind == 'floor':
            a.defs += [k <= x, x < k + 1]
            if lo > -math.inf:
                a.lo = math.floor(lo)
            if hi < math.inf:
                a.hi = math.floor(hi)
        else:
            h = z3.Q(1, 2)
            if self.tie:
                t = h - rv(self.tie)
                a.defs += [x - k < h, k - x < h]
                # exclude ties (floating-point rounding decides them)
                self.pc.append(z3.And(x - k < t, k - x < t))
            else:
                a.defs += [x - k <= h, k - x <= h,
                           z3.Implies(z3.Or(x - k == h, k - x == h),
                                      a.z % 2 == 0)]
            if lo > -math.inf:
                a.lo = math.floor(lo + .5) - 1
            if hi < math.inf:
                a.hi = math.floor(hi + .5) + 1
        if a.lo is not None:
            a.defs.append(a.z >= int(a.lo))
        if a.hi is not None:
            a.defs.append(a.z <= int(a.hi))
        self.cache[key] = a.idx
        self._bs_add()
        return Num({a.idx: 1.}, isint=True)

    def _keepflags(self, r, n):
        if n.special:
            return Num(r.c, False, False, n.pinf, n.ninf, n.nan)
        return r

    def rint(self, n):
        n = as_num(n)
        if n.isint:
            return n
        if n.is_const():
            return as_num(np.rint(n.const())) if n.special else \
                Num({0: float(np.rint(n.const()))}, isint=True)
        # integer atoms can leave the rounding
        return self._keepflags(self._split_int('rint', n), n)

    def _split_int(self, kind, n):
        ip, rest = {}, {}
        for i, v in n.c.items():
            vv = complex(v).real
            if i and self.atoms[i].isint and vv == int(vv):
                ip[i] = vv
            else:
                rest[i] = vv
        I = Num(ip, isint=True)
        if all(i == 0 for i in rest):
            k = rest.get(0, 0.)
            k = math.floor(k) if kind == 'floor' else float(np.rint(k))
            # (ties with odd integer part are excluded like other ties)
            return I + Num({0: float(k)} if k else {}, isint=True)
        return I + self._int_atom(kind, Num(rest))

    def floor(self, n):
        n = as_num(n)
        if n.isint:
            return n
        if n.is_const():
            return as_num(n.const()) if n.special else \
                Num({0: float(math.floor(n.const()))}, isint=True)
        return self._keepflags(self._split_int('floor', n), n)

    def trunc(self, n):
        n = as_num(n)
        if n.cplx:
            raise Unsupported("int of complex")
        if n.isint:
            return n
        if n.special:
            bad = zor(n.pinf, n.ninf, n.nan)
            if self.branch(bad) if not isinstance(bad, bool) else bad:
                # numba/C semantics: INT_MIN
                return Num({0: float(-2**63)}, isint=True)
            n = Num(n.c)
        if n.is_const():
            return Num({0: float(math.trunc(n.const()))}, isint=True)
        zi = n.zi()
        if zi is not None:
            return Num(n.c, isint=True)
        lo, hi = n.intervals()
        if lo >= 0:
            return self.floor(n)
        neg = self.cmp('<', n, 0)
        return ite(neg, -self.floor(-n), self.floor(n))

    def concretize(self, n):
        """Fork over the feasible integer values of n."""
        if n.is_const():
            return int(n.const())
        zi = n.zi()
        if zi is None:
            zi = z3.ToInt(n.z())
        for _ in range(4096):
            # replay decisions deterministically: choose candidate by solver
            v = self._candidate(zi)
            if self.branch(zi == v):
                return v
        raise Inconclusive("too many integer values")

    def _candidate(self, zi):
        # deterministic per path prefix: remember in decision log
        L = self.local or self
        if len(L.log) > len(L.decisions):
            ent = L.log[len(L.decisions)]
            if isinstance(ent, tuple):
                return ent[1]
        s = self._bsolver()
        r = self._check(s, *self.lpc)
        if r != z3.sat:
            raise Inconclusive("cannot enumerate integer value")
        v = s.model().eval(zi, model_completion=True).as_long()
        self._cand = v
        return v

    # transcendental ---------------------------------------------------------
    FN = {
        'log2': (lambda x: math.log2(x), 'inc', (0, None), None),
        'exp': (lambda x: math.exp(x), 'inc', (None, None), (0, None)),
        'atan': (lambda x: math.atan(x), 'inc', (None, None),
                 (-math.pi / 2, math.pi / 2)),
        'cos': (lambda x: math.cos(x), None, (None, None), (-1.001, 1.001)),
        'sin': (lambda x: math.sin(x), None, (None, None), (-1.001, 1.001)),
    }

    def log2(self, n):
        if n.cplx:
            raise Unsupported("log2 of complex")
        if n.is_const():
            v = n.const()
            return as_num(float(np.log2(v)) if v > 0 else
                          (-math.inf if v == 0 else math.nan))
        if not any(i for i in n.c):
            base = Num({0: 0.})
            v0 = complex(n.c.get(0, 0.)).real
            val = Num({0: math.log2(v0)}) if v0 > 0 else Num({})
            ispos, iszero = v0 > 0, v0 == 0
        else:
            st = self._log2_struct(n)
            if st is not None and not n.special:
                return st
            s, m = self.norm_key(Num(n.c))
            if s < 0:
                s, m = -s, -m
            val = self.fn('log2', m, s) + math.log2(s)
            lo, _ = n.intervals()
            ispos = True if lo > 0 else self.gt0(n)
            iszero = False if lo > 0 else self.eq0(n)
        neg = zand(znot(ispos), znot(iszero)) if lo_nonneg(n) is False else False
        nan = zor(n.nan, n.ninf, zand(neg, znot(n.pinf)))
        ninf = zand(iszero, znot(n.pinf), znot(nan))
        if nan is False and ninf is False and n.pinf is False:
            return val
        return Num(val.c, False, False, n.pinf, ninf, nan)

    def _log2_struct(self, n):
        """log2 of a product / quotient / exponential of positive values."""
        ks = [i for i, v in n.c.items() if v]
        if len(ks) != 1 or ks[0] == 0 or n.special:
            return None
        s = complex(n.c[ks[0]]).real
        if s <= 0:
            return None
        a = self.atoms[ks[0]]
        parts = None
        if a.kind == 'fn' and a.info[0] == 'exp':
            return a.info[1].scale(1 / math.log(2)) + math.log2(s)
        if a.kind == 'div':
            parts = ((a.info[0], 1.), (a.info[1], -1.))
        elif a.kind == 'mono':
            parts = [(Num({i: 1.}), 1.) for i in a.info]
        elif a.kind == 'sqrt':
            parts = ((a.info, .5),)
        if parts is None or not all(self._positive(q) for q, _ in parts):
            return None
        out = as_num(math.log2(s))
        for q, e in parts:
            out = out + self.log2(q).scale(e)
        return out

    def _positive(self, n):
        """Provably > 0 from its structure (value part)."""
        if n.cplx or n.special:
            return False
        return n.intervals()[0] > 0 or self._pos_struct(n)

    def _pos_struct(self, n):
        ks = [i for i, v in n.c.items() if v]
        if len(ks) != 1 or ks[0] == 0 or complex(n.c[ks[0]]).real <= 0:
            return False
        a = self.atoms[ks[0]]
        if a.lo is not None and a.lo > 0:
            return True
        if a.kind == 'fn':
            return a.info[0] == 'exp'
        if a.kind == 'div':
            return self._positive(a.info[0]) and self._positive(a.info[1])
        if a.kind == 'mono':
            return all(self._positive(Num({i: 1.})) for i in a.info)
        if a.kind == 'sqrt':
            return self._positive(a.info)
        return False

    def fn(self, name, n, scale=1.):
        n = as_num(n)
        f, mono, dom, rng = self.FN[name]
        if name == 'exp' and n.cplx and not n.special:
            re, im = n.real, n.imag
            if any(v for v in im.c.values()):
                e = self.fn('exp', re)
                out = e * self.fn('cos', im) + (e * self.fn('sin', im)).scale(1j)
                out.cplx = True
                return out
            out = self.fn('exp', re)
            return Num({k: complex(v) for k, v in out.c.items()}, True)
        if name == 'exp' and n.special and not n.cplx:
            v = self.gate(znot(zor(n.pinf, n.ninf, n.nan)),
                          self.fn('exp', Num(n.c)))
            return Num(v.c, False, False, n.pinf, False, n.nan)
        if n.is_const():
            return as_num(f(n.const()))
        if name == 'exp' and not n.special:
            ks = [i for i, v in n.c.items() if v and i]
            if len(ks) == 1:
                a = self.atoms[ks[0]]
                if a.kind == 'fn' and a.info[0] == 'log2' and abs(
                        complex(n.c[ks[0]]).real - math.log(2)) < 1e-14 and \
                        self._positive(a.info[1]):
                    return a.info[1].scale(math.exp(complex(n.c.get(
                        0, 0.)).real))
        key = ('fn', name, n.key())
        if key in self.cache:
            return Num({self.cache[key]: 1.})
        lo, hi = n.intervals()
        a = self.new_atom('fn', (name, n))
        z = n.z()
        if rng and rng[0] is not None:
            a.defs.append(a.z > rv(rng[0]))
            a.lo = rng[0]
        if rng and rng[1] is not None:
            a.defs.append(a.z < rv(rng[1]))
            a.hi = rng[1]
        pts = [h / scale for h in self.hints] + list(self.refine.get(name, ()))
        if mono and (dom[0] is None or lo > dom[0]):
            if -math.inf < lo and abs(lo) < 1e300:
                a.lo = f(lo) - 1e-9
                a.defs.append(a.z >= rv(a.lo))
        if mono and hi < math.inf:
            if dom[0] is None or hi > dom[0]:
                try:
                    a.hi = f(hi) + 1e-9
                    a.defs.append(a.z <= rv(a.hi))
                except OverflowError:
                    pass
        if mono is None:
            self.cache[key] = a.idx
            return Num({a.idx: 1.})
        for p in pts:
            if dom[0] is not None and p <= dom[0]:
                continue
            try:
                fp = f(p)
            except (ValueError, OverflowError):
                continue
            pz = rv(p)
            pre = z > 0 if dom[0] is not None else True
            a.defs.append(z3.Implies(tobool(zand(pre, z <= pz)),
                                     a.z <= rv(fp + 1e-12)))
            a.defs.append(z3.Implies(z >= pz, a.z >= rv(fp - 1e-12)))
        # monotone w.r.t. other applications
        for other in self.atoms if self.fnlink else ():
            if other.kind == 'fn' and other.idx != a.idx and \
                    other.info[0] == name:
                oz = other.info[1].z()
                pre = zand(z > 0, oz > 0) if dom[0] is not None else True
                a.defs.append(z3.Implies(tobool(pre),
                                         (z < oz) == (a.z < other.z)))
                a.defs.append(z3.Implies(tobool(pre),
                                         (z == oz) == (a.z == other.z)))
        self.cache[key] = a.idx
        return Num({a.idx: 1.})

    def fn2(self, name, x, y):
        if name == 'pow' and not y.special and not y.cplx and \
                y.zi() is not None:
            # integral symbolic exponent: fork over its feasible values
            k = self.concretize(y)
            if x.is_const() and not x.special:
                v = x.const()
                return as_num(v ** k if k >= 0 or v else math.inf)
            return x ** k
        if name == 'pow' and x.is_const() and not x.cplx and x.const() > 0:
            ks = [i for i, v in y.c.items() if v and i]
            if ks and not y.special and all(self.atoms[i].isint for i in ks):
                e = y.c.get(0, 0.)
                for i in ks:
                    e = e + y.c[i] * self.concretize(Num({i: 1.}, isint=True))
                return as_num(x.const() ** complex(e).real)
            return self.fn('exp', y.scale(math.log(x.const())))
        if name == 'pow' and y.is_const() and not y.special and \
                self._positive(x):
            return self.fn('exp', self.log2(x).scale(y.const() * math.log(2)))
        if name == 'pow' and y.is_const() and not y.special and \
                not x.special and not x.cplx and y.const() > 0 and \
                x.intervals()[0] >= 0:
            l = Num(self.log2(x).c)
            return self.gate(self.gt0(x), self.fn('exp', l.scale(
                y.const() * math.log(2))))
        raise Unsupported("symbolic %s" % name)

    # -------------------------------------------------------- branching
    def assume(self, b):
        b = bterm(b)
        if isinstance(b, bool):
            if not b:
                raise _Abort()
            return
        (self.lpc if self.local else self.pc).append(b)

    def _bsolver(self):
        if self._bs is None:
            self._bs = z3.Solver()
            self._bs.set('timeout', 10000)
            self._bs_atoms = set()
            self._bs_n = 0
        self._bs_add()
        return self._bs

    def _bs_add(self):
        if self._bs is None:
            return
        while self._bs_n < len(self.pc):
            c = self.pc[self._bs_n]
            self._bs_n += 1
            self._bs_defs(c)
            self._bs.add(c)

    def _bs_defs(self, c):
        for d in self.closure([c], self._bs_atoms, nl=False):
            self._bs.add(d)

    def _feasible(self, *assump):
        """Branch feasibility under the path condition (unknown = feasible).
        Only the connected part of the path condition matters: the rest is
        satisfiable by construction."""
        assump = [q for q in assump if q is not True]
        if any(q is False for q in assump):
            return z3.unsat
        need = set()
        for q in assump:
            need |= self._syms(q)
        pend = [(c, self._syms(c)) for c in self.pc if not isinstance(c, bool)]
        keep, grown = [], True
        while grown and pend:
            grown, rest = False, []
            for c, sy in pend:
                if sy & need:
                    need |= sy
                    keep.append(c)
                    grown = True
                else:
                    rest.append((c, sy))
            pend = rest
        terms = keep + list(assump)
        key = tuple(sorted(t.get_id() for t in terms))
        hit = self._fcache.get(key)
        if hit is not None:
            return hit[1]
        seen = set()
        defs = self.closure(terms, seen)
        nonlin = any(self.atoms[i].nl for i in seen)
        s = z3.Solver()
        s.set('timeout', 2500)
        s.add(*terms)
        s.add(*(self.closure(terms, set(), nl=False) if nonlin else defs))
        r = self._check(s)
        if r != z3.unsat and nonlin:
            s = z3.Solver()
            s.set('timeout', 1500 if self.local else 3000)
            s.add(*terms)
            s.add(*defs)
            r = self._check(s)
        self._fcache[key] = (terms, r)
        return r

    def _direct(self, t):
        """(atoms, boolean constants) occurring in formula t (cached)."""
        key = t.get_id()
        r = self._dircache.get(key)
        if r is not None:
            return r[1]
        if self._byname_n != len(self.atoms):
            for a in self.atoms[max(1, self._byname_n):]:
                self._byname[a.z.get_id()] = a.idx
            self._byname_n = len(self.atoms)
        atoms, bools = set(), set()
        stack, vis = [t], set()
        while stack:
            q = stack.pop()
            i = q.get_id()
            if i in vis:
                continue
            vis.add(i)
            if i in self._dircache:
                r = self._dircache[i][1]
                atoms |= r[0]
                bools |= r[1]
            elif q.num_args() == 0:
                k = self._byname.get(i)
                if k is not None:
                    atoms.add(k)
                elif z3.is_const(q) and \
                        q.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    bools.add(i)
            else:
                stack += q.children()
        self._dircache[key] = (t, (atoms, bools))
        return atoms, bools

    def closure(self, terms, seen=None, nl=True):
        """Definitions of all atoms reachable from terms (nl=False: products,
        quotients and roots are left unconstrained but for their bounds)."""
        seen = set() if seen is None else seen
        out, stack = [], []
        for t in terms:
            if not isinstance(t, bool):
                stack += self._direct(t)[0]
        while stack:
            i = stack.pop()
            if i in seen:
                continue
            seen.add(i)
            a = self.atoms[i]
            for d in (list(a.defs) + list(a.nl) if nl and a.nl else a.defs):
                if not isinstance(d, bool):
                    out.append(d)
                    stack += self._direct(d)[0]
        return out

    def _check(self, s, *assump):
        if not SLOWQ:
            return self._check0(s, *assump)
        t0 = time.time()
        r = self._check0(s, *assump)
        slowq(t0, r)
        return r

    def _check0(self, s, *assump):
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Inconclusive("time budget of the harness exceeded")
        r = s.check(*assump)
        self.stats.solver_s += time.time() - t0
        self.stats.branch_queries += 1
        return r

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        L = self.local or self
        pc = self.lpc if self.local else self.pc
        pos = len(L.decisions)
        cand = getattr(self, '_cand', None)
        self._cand = None
        if pos < len(L.log):
            ent = L.log[pos]
            d = ent[0] if isinstance(ent, tuple) else ent
            L.decisions.append(ent)
            pc.append(c if d else znot(c))
            return d
        v = self.oracle.decide(c) if self.oracle is not None else None
        if v is not None:
            d = (v, cand) if cand is not None else v
            L.decisions.append(d)
            pc.append(c if v else znot(c))
            return v
        rt = self._feasible(c, *self.lpc)
        rf = self._feasible(znot(c), *self.lpc)
        mk = (lambda d: (d, cand)) if cand is not None else (lambda d: d)
        if rt == z3.unsat and rf == z3.unsat:
            raise _Abort()
        if rt == z3.unsat:
            d = False
        elif rf == z3.unsat:
            d = True
        else:
            d = True
            L.pending.append(L.decisions + [mk(False)])
        L.decisions.append(mk(d))
        pc.append(c if d else znot(c))
        return d

    def iterate(self, body, names):
        """Run one loop iteration on all its local branches and merge the state
        (array cells and closure variables) with if-then-else."""
        if self.local is not None or self.fork:
            body()
            return
        cells = [body.__closure__[body.__code__.co_freevars.index(n)]
                 for n in names if n in body.__code__.co_freevars]
        pre = [_cellval(c) for c in cells]
        stack, paths = [[]], []
        fail = None
        while stack:
            L = self.local = _Local(stack.pop())
            self.lpc = []
            try:
                body()
                fin = {k: (r, _snap(r)) for k, (r, _) in L.saved.items()}
                paths.append((self.lpc, fin, [_cellval(c) for c in cells]))
            except _Abort:
                pass
            except BaseException as e:
                fail = e
            finally:
                self.local, self.lpc = None, []
                for r, old in L.saved.values():
                    _restore(r, old)
                for c, v in zip(cells, pre):
                    _setcell(c, v)
            if fail is not None:
                if isinstance(fail, (Unsupported, Inconclusive)):
                    raise fail
                if len(L.decisions) == 0:
                    raise fail
                break
            stack += L.pending
            if len(paths) > 256:
                raise Inconclusive("too many branches in one loop iteration")
        if fail is not None:        # let the ordinary forking treat it
            self.local = None
            self.stats.unmerged += 1
            body()
            return
        if not paths:
            raise _Abort()
        self.stats.merged += len(paths)
        conds = [zand(*p[0]) for p in paths]
        if len(paths) == 1:
            if paths[0][0]:
                self.pc += paths[0][0]
        elif any(c is not True for c in conds):
            pass
        bases = {}
        for _, fin, _ in paths:
            for k, (r, _) in fin.items():
                bases[k] = r
        for k, r in bases.items():
            old = _snap(r)
            vals = [fin[k][1] if k in fin else old for _, fin, _ in paths]
            for i in range(len(old)):
                acc = vals[-1][i]
                for c, v in zip(conds[-2::-1], vals[-2::-1]):
                    if v[i] is not acc:
                        acc = _mergeval(c, v[i], acc)
                vals[-1][i] = acc
            _restore(r, vals[-1])
        for q, cell in enumerate(cells):
            vs = [p[2][q] for p in paths]
            acc = vs[-1]
            for c, v in zip(conds[-2::-1], vs[-2::-1]):
                if v is not acc:
                    try:
                        acc = _mergeval(c, v, acc)
                    except Unsupported:
                        acc = Poison()
            _setcell(cell, acc)

    # -------------------------------------------------------- queries
    def solve(self, extra, timeout=None):
        """Check pc & extra. Returns (result, model)."""
        extra = [e for e in extra if e is not True]
        if any(e is False for e in extra):
            return z3.unsat, None
        if extra and len(self.pc) + len(self.lpc) > 4:
            sl = self._slice(extra)
            if sl is not None:
                # independent part of the path condition cannot make it sat/unsat
                r, _ = self._solve(sl, timeout)
                if r == z3.unsat:
                    return r, None
        return self._solve(list(self.pc) + list(self.lpc) + list(extra), timeout)

    def _syms(self, t):
        """Symbols a formula depends on, through definitions."""
        key = t.get_id()
        r = self._symcache.get(key)
        if r is not None:
            return r[1]
        at, bo = self._direct(t)
        out = {-1 - b for b in bo}
        stack, seen = list(at), set()
        while stack:
            i = stack.pop()
            if i in seen:
                continue
            seen.add(i)
            for d in list(self.atoms[i].defs) + list(self.atoms[i].nl):
                if not isinstance(d, bool):
                    a2, b2 = self._direct(d)
                    stack += a2
                    out |= {-1 - b for b in b2}
        out |= seen
        self._symcache[key] = (t, out)
        return out

    def _slice(self, extra):
        need = set()
        for e in extra:
            need |= self._syms(e)
        pend = [(c, self._syms(c)) for c in list(self.pc) + list(self.lpc)
                if not isinstance(c, bool)]
        keep, n0 = [], len(pend)
        grown = True
        while grown:
            grown, rest = False, []
            for c, sy in pend:
                if sy & need:
                    need |= sy
                    keep.append(c)
                    grown = True
                else:
                    rest.append((c, sy))
            pend = rest
        if not pend:
            return None
        return keep + list(extra)

    def _solve(self, terms, timeout=None):
        if not SLOWQ:
            return self._solve0(terms, timeout)
        t0 = time.time()
        r = self._solve0(terms, timeout)
        slowq(t0, r[0])
        return r

    def _solve0(self, terms, timeout=None):
        seen = set()
        defs = self.closure(terms, seen)
        t0 = time.time()
        budget = timeout or self.timeout
        if self.deadline:
            budget = min(budget, max(1., self.deadline - t0))
        res, model = z3.unknown, None
        if any(self.atoms[i].nl for i in seen):
            # weaker abstraction first: unsat there is unsat
            s = z3.Solver()
            s.set('timeout', int(1000 * min(20, budget / 2)))
            s.add(*terms)
            s.add(*self.closure(terms, set(), nl=False))
            if s.check() == z3.unsat:
                self.stats.queries += 1
                self.stats.solver_s += time.time() - t0
                return z3.unsat, None
        nonlin = any(self.atoms[i].kind in ('mono', 'div', 'sqrt')
                     for i in seen)
        for k, mk in enumerate(self._solvers(nonlin)):
            s = mk()
            s.set('timeout', int(1000 * (budget if k else budget / 2)))
            s.add(*terms)
            s.add(*defs)
            res = s.check()
            if res != z3.unknown:
                if res == z3.sat:
                    model = s.model()
                break
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        return res, model

    def _solvers(self, nonlin):
        def default():
            return z3.Solver()

        def nl():
            t = z3.Then('simplify', 'propagate-values', 'solve-eqs',
                        'elim-term-ite', 'purify-arith', 'qfnra-nlsat')
            return t.solver()

        def smt6():
            s = z3.Solver()
            s.set('arith.solver', 2)
            return s

        def nra():
            return z3.SolverFor('QF_NRA')
        return [default, nra, smt6] if nonlin else [default, smt6]

    def model_inputs(self, model):
        out = {}
        for name, (kind, shape, data) in self.inputs.items():
            vals = []
            for item in data:
                vals.append(self._mval(model, item))
            out[name] = dict(kind=kind, shape=list(shape), vals=vals)
        return out

    def _mval(self, model, item):
        tag = item[0]

        def num(i):
            a = self.atoms[i]
            if model[a.z] is None:      # unconstrained: any value in its range
                lo, hi = a.lo, a.hi
                lo = -math.inf if lo is None else float(lo)
                hi = math.inf if hi is None else float(hi)
                return 0. if lo <= 0 <= hi else lo if lo > 0 else hi
            return zfloat(model.eval(a.z, model_completion=True))
        if tag == 'r':
            return num(item[1])
        if tag == 'c':
            return [num(i) for i in item[1:]]
        if tag == 'x':  # ext real: atom, flag
            for flag, val in zip(item[2:], ('inf', '-inf', 'nan')):
                if flag is not None and z3.is_true(
                        model.eval(flag, model_completion=True)):
                    return val
            return num(item[1])
        if tag == 'b':
            return bool(z3.is_true(model.eval(item[1], model_completion=True)))
        if tag == 'i':
            return int(num(item[1]))
        raise AssertionError(tag)

    # -------------------------------------------------------- driver
    def run(self, fn, on_path_exc=None):
        """Execute `fn` on every feasible path."""
        stack = [[]]
        self.reset()
        while stack:
            prefix = stack.pop()
            self.reset()
            self.log = prefix
            set_engine(self)
            self.stats.paths += 1
            if self.stats.paths > self.max_paths:
                raise Inconclusive("more than %d paths" % self.max_paths)
            try:
                fn()
            except _Abort:
                pass
            except (Unsupported, Inconclusive, Violation):
                raise
            except Exception as e:
                if on_path_exc is None:
                    raise
                on_path_exc(e)
            finally:
                set_engine(None)
            stack += self.pending


def lo_nonneg(n):
    lo, _ = n.intervals()
    return lo >= 0


def zfloat(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_int_value(v):
        return float(v.as_long())
    fr = v.as_fraction()
    return float(fr)
