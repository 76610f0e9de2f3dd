# -*- coding: utf-8 -*-
"""C04: phase transforms compute the instantaneous frequency formula."""
import numpy as np
from symx.api import harness
from harness import util as U

BOUNDS = ('2-3 rows x 2-5 columns of complex transform and derivative values with parts in '
          '[-1, 1] (and tiny magnitudes for the default threshold); gamma symbolic / '
          '.25 / default; finite-difference orders 1, 2, 4; serial and parallel kernels')
ASSUMPTIONS = ['magnitudes within 1e-6 (relative) of gamma excluded, except the exact-'
               'equality harness']
TWOPI = 6.283185307179586


def trig(t, W, dW, Sf=None):
    A, B, C, D = dW.real, dW.imag, W.real, W.imag
    q = t.div(B * C - A * D, (C * C + D * D) * TWOPI)
    return abs(q) if Sf is None else abs(Sf - q)


def call(t, tr, Wx, dWx, Sfs, g, par, level):
    kw = {} if g is None else dict(gamma=g)
    if level == 'kernel':
        a = t.mod('algos')
        if tr == 'cwt':
            return a.phase_cwt_cpu(Wx, dWx, parallel=par, **kw)
        return a.phase_stft_cpu(Wx, dWx, Sfs, parallel=par, **kw)
    if level == 'env':          # parallelism from the environment
        with U.par(par):
            return call(t, tr, Wx, dWx, Sfs, g, None, 'api')
    if tr == 'cwt':
        return t.mod('_ssq_cwt').phase_cwt(Wx, dWx, parallel=par, **kw)
    return t.mod('_ssq_stft').phase_stft(Wx, dWx, Sfs, parallel=par, **kw)


def cfgs(tier):
    out = []
    for tr in ('cwt', 'stft'):
        for par in (False, True):
            for level in ('kernel', 'env', 'api'):
                out.append(dict(tr=tr, par=par, level=level, g=.25, R=3, N=2))
            out.append(dict(tr=tr, par=par, level='api', g=None, R=2, N=2))
            out.append(dict(tr=tr, par=par, level='api', g=1e-3, R=2, N=3))
    return out


@harness(cfgs, xtol=1e-5)
def formula(t, tr, par, level, g, R, N):
    eff = g
    if g is None:       # documented defaults: sqrt(eps) / 10 eps
        eff = 2.220446049250313e-16 ** .5 if tr == 'cwt' else \
            2.220446049250313e-15
    b = min(1., eff * 4)
    Wx, dWx = t.cplx('Wx', (R, N), bound=b), t.cplx('dWx', (R, N))
    for v in Wx.ravel():
        m = v.real ** 2 + v.imag ** 2
        t.assume((m > eff * eff * 1.0001) | (m < eff * eff * .9999))
    W0, D0 = t.copy(Wx), t.copy(dWx)
    Sfs = np.linspace(0., .5, R) + (0. if g is None else .03)
    S0 = Sfs.copy()
    w = call(t, tr, Wx, dWx, Sfs, g, par, level)
    t.eqs((tuple(w.shape), str(w.dtype)), ((R, N), 'float64'),
          'real, shape and precision of input')
    t.close(Wx, W0, 1e-12, 'transform not modified')
    t.close(dWx, D0, 1e-12, 'derivative not modified')
    t.close(Sfs, S0, 1e-15, 'row frequencies not modified')
    exp = t.np.zeros((R, N))
    for i in range(R):
        for j in range(N):
            v = W0[i, j]
            low = v.real ** 2 + v.imag ** 2 < eff * eff
            e = trig(t, v, D0[i, j], None if tr == 'cwt' else S0[i])
            exp[i, j] = t.ite(low, np.inf, e)
    t.close(w, exp, 1e-6 * max(1., .01 / eff), 'phase transform formula; infinite exactly '
            'below gamma')
    if g is not None:
        t.obs('w', w)


@harness(lambda tier: [dict(tr=tr, par=p) for tr in ('cwt', 'stft')
                       for p in (False, True)])
def sign_and_nan(t, tr, par):
    """Any positive gamma, including magnitude == gamma, zeros: >= 0, no NaN."""
    R, N = 2, 1
    Wx, dWx = t.cplx('Wx', (R, N)), t.cplx('dWx', (R, N))
    Wx[0, 0] = t.ite(t.boolean('zero'), 0., Wx[0, 0])
    g = t.real('g', (), 1e-3, 1.)
    at = t.boolean('at')
    Wx[0, 0] = t.ite(at, g, Wx[0, 0])
    Sfs = np.linspace(0., .5, R)
    if t.sym:
        w = call(t, tr, Wx, dWx, Sfs, g, par, 'kernel')
    else:
        w = call(t, tr, Wx, dWx, Sfs, float(g), par, 'kernel')
    t.true(~t.np.isnan(w), 'never NaN')
    t.true(w >= 0, 'never negative')
    t.true(t.np.isinf(t.ite(at, w[0, 0], np.inf)), 'infinite exactly at gamma')
    for i in range(R):
        m = abs(Wx[i, 0])
        t.true((m > g - 1e-9) | t.np.isinf(w[i, 0]), 'infinite below gamma')
        t.true((m < g + 1e-9) | ~t.np.isinf(w[i, 0]), 'finite above gamma')


def num_cfgs(tier):
    return [dict(order=o, N=N, dt=dt) for o in (1, 2, 4) for N, dt in
            ((3, 1.), (5, .25))]


@harness(num_cfgs, xtol=1e-5)
def numeric(t, order, N, dt):
    Wx = t.cplx('Wx', (1, N))
    g = .25
    U.apart(t, Wx, g)
    W0 = t.copy(Wx)
    w = t.mod('_ssq_cwt').phase_cwt_num(Wx, dt, difforder=order, gamma=g)
    t.eqs(tuple(w.shape), (1, N), 'shape of the input')
    t.close(Wx, W0, 1e-12, 'transform not modified')
    for j in range(N):
        W = lambda k: W0[0, (j + k) % N]
        if order == 1:
            d = (W(1) - W(0)) / dt
        elif order == 2:
            d = (-W(2) + 4 * W(1) - 3 * W(0)) / (2 * dt)
        else:
            d = (-W(2) + 8 * W(1) - 8 * W(-1) + W(-2)) / (12 * dt)
        v = W0[0, j]
        m2 = v.real ** 2 + v.imag ** 2
        n = d.imag * v.real - d.real * v.imag
        inf = t.np.isinf(w[0, j])
        t.true(~t.np.isnan(w[0, j]), 'never NaN')
        t.true((m2 > g * g) | inf, 'infinite below gamma')
        t.true((m2 < g * g) | ~inf, 'finite above gamma')
        # |Im(D W / W)| / 2pi
        e = abs(t.div(n, m2)) / TWOPI
        t.close(t.ite(inf, 0., w[0, j]), t.ite(inf, 0., e), 1e-6,
                'numeric phase transform formula, order %d' % order)
    t.obs('w', w)


@harness(lambda tier: [dict(order=o, gd=gd, fs=fs) for o in (1, 2, 4)
                       for gd, fs in ((False, 1.), (True, 4.))], xtol=1e-5)
def numeric_api(t, order, gd, fs):
    """ssq_cwt(difftype='numeric'): phase transform of the original time span,
    computed on a padded transform, and outputs aligned with it."""
    N, R, up, n1 = 8, 2, 16, 4
    g = .25
    Wx = t.cplx('Wx', (R, 16))
    dWx = t.cplx('dWx', (R, 16))
    U.apart(t, Wx, g)
    W0 = t.copy(Wx)
    m = t.mod('_ssq_cwt')
    sc = np.array([2., 4., 8.])[:R]
    seen = {}

    def fake_ssq(W, w, *a, **k):
        seen.update(W=W, w=w, k=k)
        return W * 2., np.array([.1, .2])
    with U.patched(m, cwt=U.fake_cwt(Wx, dWx, sc.copy()), ssqueeze=fake_ssq,
                   process_scales=lambda *a, **k: (sc, 'log', R, 1.)):
        out = m.ssq_cwt(np.arange(N) * .1, 'gmw', scales=sc, difftype='numeric',
                        difforder=order, get_w=True, get_dWx=gd, gamma=g, fs=fs)
    Tx, Wr, w = out[0], out[1], out[4]
    sl = slice(n1, n1 + N)
    t.close(Wr, W0[:, sl], 1e-9, 'returned transform is unpadded')
    t.close(Tx, 2. * W0[:, sl], 1e-9, 'synchrosqueezed output aligned in time')
    if gd:
        t.close(out[5], dWx[:, sl], 1e-9, 'derivative aligned in time')
    full = t.mod('_ssq_cwt').phase_cwt_num(t.copy(W0), 1. / fs, difforder=order,
                                           gamma=g)
    t.close(w, full[:, sl], 1e-6, 'phase transform of the original time span')


@harness(lambda tier: [dict(tr=tr) for tr in ('cwt', 'stft')])
def dispatch(t, tr):
    """Extra precision of the encoding: 1 x 1, purely real/imaginary ratios."""
    f = t.real('f', (), 0., .5)
    W = t.cplx('W', (1, 1))
    U.apart(t, W, .1)
    Sfs = t.const(np.zeros(1))
    Sfs[0] = f
    d = W * (2j * np.pi) * f        # derivative of a pure tone of frequency f
    if tr == 'cwt':
        w = call(t, 'cwt', W, d, None, .1, False, 'api')
        t.true(t.np.isinf(w[0, 0]) | (abs(w[0, 0] - f) < 1e-6),
               'pure tone has its frequency')
    else:
        w = call(t, 'stft', W, d, Sfs, .1, False, 'api')
        t.true(t.np.isinf(w[0, 0]) | (abs(w[0, 0]) < 1e-6),
               'stationary tone: f - f == 0')
