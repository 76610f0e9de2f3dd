# -*- coding: utf-8 -*-
"""Harness API shared by the symbolic run and the concrete replay (no z3 here)."""
import importlib
import math
import sys
import numpy as np

PKG = 'ssqueezepy'
REGISTRY = {}


class Harness:
    def __init__(self, fn, configs, opts):
        self.fn, self.configs, self.opts, self.name = fn, configs, opts, \
            fn.__name__


def harness(configs=None, **opts):
    """Register a harness.  configs(tier) -> list of dict of JSON-able values."""
    def deco(fn):
        REGISTRY[fn.__name__] = Harness(fn, configs or (lambda tier: [{}]), opts)
        return fn
    return deco


class AssumeFailed(Exception):
    pass


class Failed(Exception):
    pass


def mod(name=''):
    return importlib.import_module(PKG + ('.' + name if name else ''))


class TBase:
    tier = 'quick'

    def mod(self, name=''):
        return mod(name)


class TConc(TBase):
    """Concrete execution with given inputs (stub environment or real build)."""
    sym = False

    def __init__(self, inputs, tolf=.5):
        self.inputs, self.tolf = inputs, tolf
        self.np = np
        self.fails = []
        self.observed = {}

    def _get(self, name):
        if name not in self.inputs:     # past the point the model was taken at
            raise AssumeFailed()
        return self.inputs[name]

    def real(self, name, shape=(), lo=-1., hi=1., dtype='float64'):
        v = np.array(self._get(name)['vals'], dtype='float64').reshape(shape)
        v = v.astype(dtype)
        return v if shape != () else v[()]

    def ereal(self, name, shape=(), lo=-1., hi=1., dtype='float64', ninf=False,
              nan=False):
        vals = [dict([('inf', math.inf), ('-inf', -math.inf),
                      ('nan', math.nan)]).get(x, x) if isinstance(x, str) else x
                for x in self._get(name)['vals']]
        v = np.array(vals, dtype=dtype).reshape(shape)
        return v if shape != () else v[()]

    def cplx(self, name, shape=(), bound=1., dtype='complex128'):
        v = np.array([complex(a, b) for a, b in self._get(name)['vals']],
                     dtype=dtype).reshape(shape)
        return v if shape != () else v[()]

    def boolean(self, name, shape=()):
        v = np.array(self._get(name)['vals'], dtype=bool).reshape(shape)
        return v if shape != () else bool(v[()])

    def integer(self, name, lo, hi):
        return int(self._get(name)['vals'][0])

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise AssumeFailed()

    def true(self, cond, msg, label=''):
        c = np.asarray(cond)
        if not bool(np.all(c)):
            self.fails.append((msg, label, 'condition false'))

    def false(self, msg, label=''):
        self.fails.append((msg, label, 'reached'))

    def close(self, a, b, tol, msg, label=''):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.fails.append((msg, label, 'shape %s vs %s' % (a.shape,
                                                               b.shape)))
            return
        if a.size == 0:
            return
        with np.errstate(all='ignore'):
            infs = np.isinf(a) | np.isinf(b) | np.isnan(a) | np.isnan(b)
            if infs.any():
                same = (a == b) | (np.isnan(a) & np.isnan(b))
                bad = infs & ~same
                if bad.any():
                    i = tuple(int(q) for q in np.argwhere(bad)[0])
                    self.fails.append((msg, label, 'at %s: %s vs %s' % (
                        i, a[i], b[i])))
                    return
            d = np.where(infs, 0, a - b)
            d = np.maximum(np.abs(d.real), np.abs(d.imag))
            if d.max() > tol * self.tolf:
                i = np.unravel_index(int(np.argmax(d)), d.shape)
                self.fails.append((msg, label, 'at %s: %s vs %s' % (
                    tuple(int(q) for q in i), a[i], b[i])))

    def eqs(self, a, b, msg, label=''):
        """Equality of plain python objects (shapes, dtypes, flags)."""
        if not (a == b):
            self.fails.append((msg, label, '%r vs %r' % (a, b)))

    def obs(self, name, val):
        self.observed[name] = np.array(val)

    def raises(self, excs, f, msg, label=''):
        try:
            f()
        except excs:
            return True
        self.fails.append((msg, label, 'no exception'))
        return False

    def copy(self, x):
        return np.array(x, copy=True)

    def const(self, x):
        """Concrete array that code may write into."""
        return np.array(x)

    def ite(self, c, a, b):
        return np.where(c, a, b) if np.ndim(c) else (a if c else b)

    def div(self, n, d):
        with np.errstate(all='ignore'):
            return np.where(d == 0, 0., np.divide(n, np.where(d == 0, 1., d)))[()]


def rand_inputs(spec, rng):
    """Random concrete values for recorded input declarations."""
    out = {}
    for name, (kind, shape, lo, hi, extra) in spec.items():
        n = int(np.prod(shape)) if shape != () else 1
        if kind == 'c':
            vals = [[float(a), float(b)] for a, b in
                    rng.uniform(-lo, lo, (n, 2))] if False else \
                [[float(rng.uniform(lo, hi)), float(rng.uniform(lo, hi))]
                 for _ in range(n)]
        elif kind == 'b':
            vals = [bool(rng.integers(2)) for _ in range(n)]
        elif kind == 'i':
            vals = [int(rng.integers(lo, hi + 1)) for _ in range(n)]
        else:
            vals = [float(rng.uniform(-2 if lo is None else lo,
                                      2 if hi is None else hi))
                    for _ in range(n)]
            if kind == 'x':
                vals = ['inf' if rng.random() < .15 else v for v in vals]
        out[name] = dict(kind=kind, shape=list(shape), vals=vals)
    return out
