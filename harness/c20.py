# -*- coding: utf-8 -*-
"""C20: ridge extraction returns in-range, optimal ridges."""
import itertools
import numpy as np
from symx.api import harness
from harness import util as U

BOUNDS = ('2-4 frequencies x 1-4 times, 1-2 ridges, bands 0-2, penalties 0-2, linear and '
          'logarithmic distances, serial and parallel; arbitrary magnitudes of the entries '
          'marked free, any phases')
ASSUMPTIONS = ['path optimality is decided with the logarithm of the energies replaced by '
               'a linear function (the dynamic programme never uses its shape); the use '
               'of the logarithm itself is decided on single columns',
               'exact arithmetic: the library accepts a predecessor only if its energy '
               'matches to one machine epsilon, so in floating point long paths may keep '
               'the forward choice']


def lin(t):
    """Context: logarithm of the 2-D energies is x - 1 (dyadic when concrete)."""
    m = t.mod('ridge_extraction').np
    real = m.log
    if not t.sym:       # compile the kernels first
        for par in (False, True):
            t.mod('').extract_ridges(np.ones((2, 2), dtype='complex128'),
                                     np.array([1., 2.]), parallel=par)

    def log(x, *a, **k):
        if np.ndim(x) < 2:
            return real(x, *a, **k)
        return (x - 2. ** -52) - 1. if t.sym else np.rint(np.asarray(x) * 2. ** 24) / 2. ** 24 - 1.
    return U.patched(m, log=log)


def path_cost(L, pm, path):
    c = L[path[0]][0]
    for k in range(1, len(path)):
        c = c + L[path[k]][k] + pm[path[k]][path[k - 1]]
    return c


def col_max(t, En, k):
    mx = En[0][k]
    for i in range(1, len(En)):
        mx = t.np.maximum(mx, En[i][k])
    return mx


def indices(t, idx, m, R):
    out = []
    for k in range(idx.shape[0]):
        v = idx[k, m]
        t.true((v >= 0) & (v < R), 'index inside the frequency axis')
        for i in range(R):
            if bool(v == i):
                out.append(i)
                break
    return out


def transform_of(t, R, N, top, lo=0., hi=1 - 2. ** -10, fixed=()):
    """One entry per column has energy 1 (row top[k]), the others are arbitrary in
    [lo, hi]; phases vary.  Also returns the energies."""
    Tf = t.const(np.zeros((R, N), dtype='complex128'))
    rs = np.random.RandomState(R + 7 * N)
    E = [[None] * N for _ in range(R)]
    for k in range(N):
        for i in range(R):
            ph = [1, -1, 1j, -1j][rs.randint(4)]
            if i == top[k]:
                E[i][k] = 1.
                Tf[i, k] = ph
            elif (i, k) in fixed:
                E[i][k] = .25
                Tf[i, k] = .5 * ph
            else:
                E[i][k] = t.real('x%d_%d' % (i, k), (), lo, hi)
                Tf[i, k] = t.np.sqrt(E[i][k]) * ph
    return Tf, E


def opt_cfgs(tier):
    sh = [(2, 2), (2, 3), (3, 2)] + ([(3, 3), (2, 4)] if tier != 'quick' else [])
    out = []
    for R, N in sh:
        tops = list(itertools.product(range(R), repeat=N))
        if tier == 'quick':
            tops = tops[::3] if R * N < 5 else tops[1::4]
        elif len(tops) > 8:
            tops = tops[::4]
        for k, top in enumerate(tops):
            for pen in (.5,) if tier == 'quick' else (0., .125, .5, 2.):
                out.append(dict(R=R, N=N, top=list(top), pen=pen,
                                par=k % 2, n=1, bw=1, tr=('stft', 'cwt')[k % 3 == 1]))
    return out


@harness(opt_cfgs, max_paths=8000, fork=True)
def optimal(t, R, N, top, pen, par, n, bw, tr):
    Tf, E = transform_of(t, R, N, top)
    T0 = t.copy(Tf)
    # (logarithms of the scales are exact)
    sc = np.exp([0., 1., 2., 3.])[:R] if tr == 'cwt' else np.array([1., 2., 4., 8.])[:R]
    s0 = sc.copy()
    with lin(t):
        idx, f, e = t.mod('').extract_ridges(
            Tf, sc, penalty=pen, n_ridges=n, bw=bw, transform=tr, get_params=True,
            parallel=bool(par))
    t.eqs(tuple(idx.shape), (N, n), 'one index per time and ridge')
    ls = np.arange(R) * 1. if tr == 'cwt' else sc
    pm = pen * np.subtract.outer(ls, ls) ** 2
    r = indices(t, idx, 0, R)
    L = [[-E[i][k] for k in range(N)] for i in range(R)]
    cost = path_cost(L, pm, r)
    for p in itertools.product(range(R), repeat=N):
        t.true(cost <= path_cost(L, pm, p) + 1e-4,
               'no other path has a lower penalised energy')
    for k in range(N):
        t.close(f[k, 0], s0[r[k]], 1e-6, 'frequency at the index')
        t.close(e[k, 0], E[r[k]][k], 1e-6, 'energy at the index')
    t.close(Tf, T0, 1e-12, 'input untouched')
    t.true(bool(np.all(sc == s0)), 'scales untouched')


def rm_cfgs(tier):
    out = []
    for R, bw in ((3, 1), (4, 1), (4, 2), (3, 0), (2, 3)):
        for top in range(R):
            for par in ((top + bw) % 2,) if tier == 'quick' else (0, 1):
                out.append(dict(R=R, bw=bw, top=top, par=par))
    return out


@harness(rm_cfgs, max_paths=8000, fork=True, hints=(1 - 5e-5, 1.))
def removal(t, R, bw, top, par):
    """Two ridges of a single column: the second is the best outside the band."""
    Tf, E = transform_of(t, R, 1, [top], .05)
    T0 = t.copy(Tf)
    sc = 1. + np.arange(R)
    kw = dict(penalty=1., bw=bw, transform='stft', parallel=bool(par))
    er = t.mod('').extract_ridges
    idx, f, e = er(Tf, sc, n_ridges=2, get_params=True, **kw)
    idx1 = er(Tf, sc, n_ridges=2, **kw)
    t.close(idx1, idx, 1e-9, 'same indices without the extra outputs')
    r = indices(t, idx, 0, R) + indices(t, idx, 1, R)
    E = [q[0] for q in E]
    for i in range(R):
        t.true(E[r[0]] >= E[i] - 1e-4, 'first ridge has the largest energy')
    left = [0. if r[0] - bw <= i < r[0] + bw else E[i] for i in range(R)]
    for i in range(R):
        t.true(left[r[1]] >= left[i] - 1e-4,
               'second ridge has the largest remaining energy')
    for m, EE in ((0, E), (1, left)):
        t.close(e[0, m], EE[r[m]], 1e-6, 'remaining energy at the index')
        t.close(f[0, m], sc[r[m]], 1e-6, 'frequency at the index')
    t.close(Tf, T0, 1e-12, 'input untouched')


@harness(lambda tier: [dict(par=p, bw=b) for p in (0, 1) for b in (1, 2)],
         max_paths=8000, fork=True)
def removal2(t, par, bw):
    """Two ridges over two times: the band is cleared at each time around that time's
    own index, for the second ridge only."""
    R, N = 3, 2
    Tf, E = transform_of(t, R, N, [0, 2],
                         fixed=[(1, par)] if t.tier == 'quick' else [])
    T0 = t.copy(Tf)
    sc = 1. + np.arange(R)
    with lin(t):
        idx, f, e = t.mod('').extract_ridges(
            Tf, sc, penalty=.0625, n_ridges=2, bw=bw, transform='stft',
            get_params=True, parallel=bool(par))
    r, r2 = indices(t, idx, 0, R), indices(t, idx, 1, R)
    for k in range(N):
        t.close(e[k, 0], E[r[k]][k], 1e-6, 'energy at the index')
        t.close(e[k, 1], 0. if r[k] - bw <= r2[k] < r[k] + bw else E[r2[k]][k], 1e-6,
                'energy left after removing the first ridge')
        t.close(f[k, 1], sc[r2[k]], 1e-6, 'frequency at the index')
    t.close(Tf, T0, 1e-12, 'input untouched')


@harness(lambda tier: [dict(par=p, N=N, z=z, dt=d) for p in (0, 1)
                       for N, z in ((2, 0), (3, 1)) for d in ('complex128',)])
def silence(t, par, N, z, dt):
    """A column without energy expresses no preference: it does not derail the
    ridge of later times."""
    R = 3
    Tf = t.const(np.zeros((R, N), dtype=dt))
    for k in range(N):
        if k != z:
            for i in range(R):
                Tf[i, k] = t.real('x%d_%d' % (i, k), (), .1, .6) * 1j
            Tf[1, k] = 1.
    sc = 1. + np.arange(R)
    with lin(t):
        idx = t.mod('').extract_ridges(Tf, sc, penalty=.0625, n_ridges=1, bw=1,
                                       transform='stft', parallel=bool(par))
    t.true(idx[N - 1, 0] == 1, 'ridge after silence has the largest energy')
    r = indices(t, idx, 0, R)
    t.eqs(len(r), N, 'index inside the frequency axis')
