# -*- coding: utf-8 -*-
"""C06: closest-index search returns the true nearest entry."""
import numpy as np
from symx.api import harness
from harness import util as U

BOUNDS = ('2-D query arrays of 1-4 symbolic values in [-2, 2] ((0, 2] for log); reference '
          'vectors: 2-4 arbitrary distinct symbolic values in any order (smart, brute), '
          'symbolic origin and step (linear), 2-8 concrete log / log-piecewise labels; '
          'indexed sum 2-3 x 1-2 with every index pattern')
ASSUMPTIONS = ['reference entries at least 1e-3 apart; queries within 1e-7 of a midpoint '
               'excluded for the fast searches']


def nearest(t, out, a, v, tol, msg):
    """|a - v[out]| <= |a - v[k]| + tol for all k."""
    n = len(v)
    for i in np.ndindex(*a.shape):
        k = out[i]
        t.true((k >= 0) & (k < n), 'index in range')
        d = abs(a[i] - v[0])
        ds = [abs(a[i] - v[q]) for q in range(n)]
        for q in range(1, n):
            d = t.ite(k == q, ds[q], d)
        for q in range(n):
            t.true(d <= ds[q] + tol, msg)


def any_cfgs(tier):
    out = []
    for fn in ('find_closest_smart', 'find_closest_brute', 'find_closest',
               'find_closest-smart'):
        for n in ((2, 3) if tier == 'quick' else (2, 3, 4)):
            for sh in ((1, 2), (2, 1)):
                out.append(dict(fn=fn, n=n, shape=list(sh)))
    return out


@harness(any_cfgs, max_paths=4000)
def any_vector(t, fn, n, shape):
    a = t.real('a', tuple(shape), -2., 2.)
    v = t.real('v', (n,), -1., 1.)
    for i in range(n):
        for j in range(i):
            t.assume(abs(v[i] - v[j]) > 1e-3)
    al = t.mod('algos')
    a0, v0 = t.copy(a), t.copy(v)
    if fn == 'find_closest-smart':
        out = al.find_closest(a, v, smart=True)
    else:
        out = getattr(al, fn)(a, v)
    t.eqs(tuple(out.shape), tuple(shape), 'one index per query')
    t.close(a, a0, 1e-12, 'queries untouched')
    t.close(v, v0, 1e-12, 'reference untouched')
    nearest(t, out, a0, v0, 1e-9, 'nearest entry of an arbitrary vector')
    t.obs('d', out)


@harness(lambda tier: [dict(n=n, par=p, via=via) for n in (2, 3, 6)
                       for p in (False, True) for via in ('direct', 'front')],
         max_paths=4000)
def linear(t, n, par, via):
    a = t.real('a', (1, 2) if n < 6 else (1, 1), -2., 2.)
    v0, dv = t.real('v0', (), -1., 1.), t.real('dv', (), .1, .5)
    v = t.const(np.zeros(n))
    for k in range(n):
        v[k] = v0 + k * dv
    al = t.mod('algos')
    if via == 'direct':
        out = al.find_closest_lin(a, v, parallel=par)
    else:
        out = al.find_closest(a, v, logscale=False, parallel=par, smart=False)
    t.eqs(tuple(out.shape), tuple(a.shape), 'one index per query')
    nearest(t, out, a, v, 1e-6, 'nearest entry of a uniform vector')
    t.obs('out', out)


def log_cfgs(tier):
    out = []
    for kind, Rs in (('log', (4, 5, 9)), ('log-piecewise', (5, 8)),
                     ('log-piecewise-rev', (5, 8))):
        for R in Rs:
            for par in (False, True):
                for lo in (.03125, .7) if tier != 'quick' else \
                        ((.03125,) if par else (.7,)):
                    for via in ('direct', 'front') if R == 5 else ('direct',):
                        out.append(dict(kind=kind, R=R, par=par, lo=lo, via=via))
    return out


def log_v(kind, R, lo):
    return U.freqs(kind, R, lo=lo, hi=lo * 8)


def log_hints(cfg):
    if 'kind' not in cfg:
        return []
    v = log_v(cfg['kind'], cfg['R'], cfg['lo'])
    out = list(v)
    for e in U.edges(v, 'log'):
        out += [e * (1 - 1e-9), e, e * (1 + 1e-9)]
    return sorted(float(q) for q in out)


@harness(log_cfgs, hints=log_hints)
def log(t, kind, R, par, lo, via):
    v = log_v(kind, R, lo)
    a = t.real('a', (1, 2), 1e-3, 2. * v[-1])
    al = t.mod('algos')
    if via == 'direct':
        out = al.find_closest_log(a, v.copy(), parallel=par)
    else:
        out = al.find_closest(a, v.copy(), logscale=True, parallel=par,
                              smart=False)
    for j in range(2):
        for k, b in enumerate(U.bins(t, a[0, j], v, 'log')):
            e = U.edges(v, 'log')
            near = False
            for q in e:
                near = near | (abs(a[0, j] - q) < 1e-6 * q)
            t.true((out[0, j] == k) | ~b | near, 'nearest entry in log space')
    t.obs('out', out)


@harness(lambda tier: [dict(kind=k, R=4) for k in ('log', 'linear')],
         hints=lambda c: log_hints(dict(kind='log', R=4, lo=.5))
         if c.get('kind') == 'log' else [], max_paths=4000)
def smart_log(t, kind, R):
    """find_closest(smart=True, logscale) searches in log space."""
    v = U.freqs(kind, R, .5, 4.)
    a = t.real('a', (1, 2), .1, 8.)
    out = t.mod('algos').find_closest(a, v.copy(), logscale=kind == 'log',
                                      smart=True)
    e = U.edges(v, kind)
    for j in range(2):
        near = False
        for q in e:
            near = near | (abs(a[0, j] - q) < 1e-6)
        for k, b in enumerate(U.bins(t, a[0, j], v, kind)):
            t.true((out[0, j] == k) | ~b | near, 'nearest entry')
    t.obs('out', out)


@harness(lambda tier: [dict(R=R, N=N, par=p) for R, N in ((2, 2), (3, 1), (3, 2))
                       for p in (None, False, True)])
def indexed(t, R, N, par):
    a = t.cplx('a', (R, N))
    if t.sym:
        k = t.np.array([[t.integer('k%d_%d' % (i, j), 0, R - 1)
                         for j in range(N)] for i in range(R)])
    else:
        k = np.array([[t.integer('k%d_%d' % (i, j), 0, R - 1)
                       for j in range(N)] for i in range(R)], dtype='int32')
    a0 = t.copy(a)
    out = t.mod('algos').indexed_sum(a, k, **({} if par is None else
                                              dict(parallel=par)))
    t.eqs(tuple(out.shape), (R, N), 'shape of the input')
    t.close(a, a0, 1e-12, 'input untouched')
    for j in range(N):
        for r in range(R):
            e = 0.
            for i in range(R):
                e = e + t.ite(k[i, j] == r, a0[i, j], 0.)
            t.close(out[r, j], e, 1e-9, 'entries summed into their row, in their '
                    'column')
    t.obs('out', out)
