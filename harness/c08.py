# -*- coding: utf-8 -*-
"""C08: parallel kernels equal serial ones under every schedule considered."""
import numpy as np
from symx.api import harness
from harness import util as U
from harness import schedlib as S

BOUNDS = ('2-4 rows x 2-3 columns; schedules of every prange loop: forward, backward, and '
          'fully overlapped iterations (all start from the initial memory; colliding '
          'writes keep either one), compared with the single-threaded routine for '
          'every input value; nested prange loops parallel in the outer one')
ASSUMPTIONS = ['numba iterations are atomic per array element access']


def scheds(tier):
    return list(S.SCHEDS) if tier != 'quick' else ['desc', 'overlap',
                                                   'overlap-rev']


def grid(**axes):
    def f(tier):
        out = [{}]
        for k, v in axes.items():
            vals = v(tier) if callable(v) else v
            out = [dict(c, **{k: x}) for c in out for x in vals]
        return out
    return f


def compare(t, f, sched, name, out=lambda r: [r], tag=''):
    """f(parallel) -> result; parallel one under the schedule."""
    a = out(f(False))
    with S.schedule(t, sched):
        b = out(f(True))
    for x, y in zip(a, b):
        t.eqs(tuple(np.shape(x)), tuple(np.shape(y)), name + ': same shape')
        t.close(y, x, 1e-7, name + ': parallel equals serial')
    t.obs('out' + tag, a[0])


FK = ('log', 'linear', 'log-piecewise')


@harness(grid(fk=FK, flip=(False, True), sched=scheds), hints=lambda c: U.hints(
    dict(fk=c['fk'], R=4)))
def two_step(t, fk, flip, sched):
    R, N = 4, 2
    Wx = t.cplx('Wx', (R, N))
    w = t.ereal('w', (R, N), 0., 2.)
    f = U.freqs(fk, R)
    c = np.full(R, .25) + .125 * np.arange(R)
    compare(t, lambda p: t.mod('algos').indexed_sum_onfly(
        Wx, w, f, c, logscale=fk != 'linear', flipud=flip, parallel=p), sched,
        'squeeze by phase')


@harness(grid(fk=FK + ('stft',), flip=(False, True), sched=scheds),
         hints=lambda c: [] if c['fk'] == 'stft' else U.hints(
             dict(fk=c['fk'], R=4)), fnlink=False)
def one_pass(t, fk, flip, sched):
    R, N = (4, 2) if fk != 'stft' else (3, 2)
    Wx = t.cplx('Wx', (R, N))
    dWx = t.cplx('dWx', (R, N))
    U.apart(t, Wx, .25)
    f = U.freqs('linear0' if fk == 'stft' else fk, R)
    c = np.full(R, .25) + .125 * np.arange(R)
    compare(t, lambda p: t.mod('algos').ssqueeze_fast(
        Wx, dWx, f, c, logscale=fk in ('log', 'log-piecewise'), flipud=flip,
        gamma=.25, Sfs=f if fk == 'stft' else None, parallel=p), sched,
        'squeeze in one pass')


@harness(grid(api=('cwt', 'stft'), sched=scheds))
def phase(t, api, sched):
    R, N = 3, 2
    Wx = t.cplx('Wx', (R, N))
    dWx = t.cplx('dWx', (R, N))
    U.apart(t, Wx, .25)
    al = t.mod('algos')
    f = np.linspace(0, .5, R)
    compare(t, lambda p: al.phase_cwt_cpu(Wx, dWx, .25, parallel=p)
            if api == 'cwt' else
            al.phase_stft_cpu(Wx, dWx, f, .25, parallel=p), sched, 'phase')


@harness(grid(fk=('log', 'linear', 'log-piecewise'), sched=scheds),
         hints=lambda c: U.hints(dict(fk=c['fk'], R=5)))
def closest(t, fk, sched):
    a = t.real('a', (2, 2), .01, 2.)
    f = U.freqs(fk, 5)
    al = t.mod('algos')
    compare(t, lambda p: al.find_closest(a, f, logscale=fk != 'linear', parallel=p,
                                         smart=False), sched, 'closest index')


@harness(grid(sched=scheds), max_paths=4000)
def brute(t, sched):
    a = t.real('a', (2, 2), -1., 1.)
    v = np.array([-.5, .25, .75])
    al = t.mod('algos')
    for e in a.ravel():         # clear of ties
        t.assume((abs(e + .125) > 1e-6) & (abs(e - .5) > 1e-6))
    compare(t, lambda p: al.find_closest_brute(a, v) if p else
            al.find_closest(a, v, smart=True), sched, 'brute search')


@harness(grid(sched=scheds), max_paths=4000)
def indexed(t, sched):
    a = t.cplx('a', (3, 2))
    k = t.np.array([[t.integer('k%d%d' % (i, j), 0, 2) for j in range(2)]
                    for i in range(3)])
    if not t.sym:
        k = np.array(k, dtype='int64')
    compare(t, lambda p: t.mod('algos').indexed_sum(a, k, parallel=p), sched,
            'indexed sum')


@harness(grid(nd=(1, 2), mod=(False, True), seg=(1, 2, 3, 4, 5), sched=scheds))
def framing(t, nd, mod, seg, sched):
    for hop in sorted({1, 2, seg, seg + 1}):
        L = seg + 2 * hop + 1
        x = t.real('x%d' % hop, (L,) if nd == 1 else (2, L))
        compare(t, lambda p: t.mod('utils.stft_utils').buffer(
            x, seg, seg - hop, modulated=mod, parallel=p), sched, 'framing',
                tag=str(hop))


@harness(grid(dt=('float64', 'complex128'), sched=scheds))
def under_abs(t, dt, sched):
    x = t.real('x', (3, 2))
    ref = t.cplx('r', (3, 2)) if dt[0] == 'c' else t.real('r', (3, 2))
    if dt[0] == 'c':
        U.apart(t, ref, .5)

    def f(p):
        y = t.copy(x)
        t.mod('algos').replace_under_abs(y, ref, value=.5, replacement=7.,
                                         parallel=p)
        return y
    compare(t, f, sched, 'replacement')


@harness(grid(nd=(1, 2), sched=scheds))
def denormals(t, nd, sched):
    tiny = 1000 * 2.2250738585072014e-308
    u = t.real('u', (4,) if nd == 1 else (2, 2), -2., 2.)
    for v in u.ravel():
        t.assume((abs(v) > .6667) | (abs(v) < .6666))

    def f(p):
        y = u * (tiny * 1.5)
        t.mod('algos').zero_denormals(y, parallel=p)
        return y * 1e150 * 1e150
    compare(t, f, sched, 'denormals')


@harness(grid(shape=((2, 3), (3, 2)), dirn=('fw', 'bw'), sched=scheds),
         max_paths=4000, fnlink=False)
def ridge(t, shape, dirn, sched):
    R, N = shape
    m = t.mod('ridge_extraction')
    e = t.real('e', (R, N), 0., 4.)
    pm = t.real('p', (R, R), 0., 2.)
    if dirn == 'fw':
        compare(t, lambda p: m._accumulated_penalty_energy_fw(e, pm, p)[0], sched,
                'forward penalty')
    else:
        pe = t.real('pe', (R, N), 0., 8.)
        idx = [t.integer('i%d' % j, 0, R - 1) for j in range(N)]
        eps = .25
        for j in range(N - 1):      # clear of the tolerance boundary
            for a in range(R):
                for b in range(R):
                    for q in range(R):
                        if a == b:
                            d = abs(pe[a, j + 1] - e[a, j + 1] - pe[q, j] -
                                    pm[a, q])
                            t.assume(abs(d - eps) > 1e-6)

        def f(p):
            ii = t.np.array(list(idx))
            if not t.sym:
                ii = np.array(ii, dtype='int64')
            return m._accumulated_penalty_energy_bw(e, pm, pe, ii, eps, p)
        compare(t, f, sched, 'backward penalty')


@harness(grid(api=('cwt', 'stft'), sched=('overlap', 'desc')), max_paths=4000)
def extract(t, api, sched):
    """The public routine hands its `parallel` argument to matching kernels."""
    Tf = t.const(np.array([[.5, 1.5, .75], [1., .25, 1.25]]) * (1 + 0j))
    Tf[1, 1] = t.real('x', (), .5, 1.25) * (1 + .5j)
    er = t.mod('ridge_extraction').extract_ridges
    sc = np.array([1., 2.])
    compare(t, lambda p: er(Tf, sc, penalty=.5, n_ridges=2, bw=1, transform=api,
                            parallel=p, get_params=True), sched, 'ridge',
            out=lambda r: r)
