# -*- coding: utf-8 -*-
"""C14: CWT equals its definition, whatever the execution strategy."""
import inspect
import numpy as np
from symx.api import harness
from harness import util as U
from harness.util import ext
from harness import wavlib

BOUNDS = ('signals of 2..9 arbitrary samples in [-1, 1] (1-3 rows), 3-6 given scales (log, '
          'linear, piecewise) or generated ones (nv 2, N = 32, 64), all wavelets incl. '
          'custom functions, every padding and none, L1/L2, derivative, loop/vectorized, '
          'cached/recomputed, orders 0-3')
ASSUMPTIONS = ['wavelets written from their formulas; double precision unless stated']
PADS = ('reflect', 'zero', 'symmetric', 'replicate', 'wrap', None)
WAVS = {
    'gmw': dict(), 'gmw2': dict(gamma=2., beta=3.), 'gmwc': dict(
        gamma=3., beta=8., centered_scale=True),
    'morlet': dict(mu=5.), 'bump': dict(mu=4., s=1.2), 'cmhat': dict(mu=.5, s=1.),
    'hhhat': dict(mu=2.), 'bumpc': dict(mu=4., s=1.5, om=.3)}


def base(name):
    return name.rstrip('2c') if name[:3] == 'gmw' else 'bump' if \
        name[:4] == 'bump' else name


def custom(w):
    return w * w / (1 + w ** 4) * (w > 0)


def lens(N, padtype):
    if padtype is None:
        return N, 0
    p2 = 2 ** (1 + int(np.round(np.log2(N))))
    return p2, (p2 - N + 1) // 2


def cwt_def(t, x, psih, padtype, rpadded, norm=None, xi_mul=None):
    """Inverse DFT of (DFT of padded x) times psih rows, as a matrix product."""
    N = x.shape[-1]
    M, n1 = lens(N, padtype)
    xp = [ext(x, i - n1, N, padtype, t) for i in range(M)]
    F = np.exp(-2j * np.pi * np.outer(np.arange(M), np.arange(M)) / M)
    out = []
    for a in range(len(psih)):
        d = psih[a] if xi_mul is None else psih[a] * xi_mul
        G = np.conj(F) @ (d[:, None] * F) / M
        if norm is not None:
            G = G * norm[a]
        row = []
        for n in range(M) if rpadded else range(n1, n1 + N):
            s = 0.
            for m in range(M):
                s = s + xp[m] * complex(G[n, m])
            row.append(s)
        out.append(t.np.stack(row, axis=-1))
    return t.np.stack(out, axis=-2)


def psih_of(name, scales, M, l1, order=0):
    if name == 'custom':
        w = np.asarray(scales).reshape(-1, 1) * wavlib.dft_freqs(M)
        p = custom(w)
        if M % 2 == 0:
            p[:, M // 2] /= 2
        return p
    kw = dict(WAVS[name])
    if base(name) == 'gmw':
        kw.update(norm='bandpass' if l1 else 'energy', order=order)
    return wavlib.sample(base(name), scales, M, nohalf=False, **kw)


def wav_arg(t, name, l1, inst, order=0):
    if name == 'custom':
        return custom
    kw = dict(WAVS[name], dtype='float64')
    if base(name) == 'gmw':
        if order:
            kw['order'] = order
        if inst:
            kw['norm'] = 'bandpass' if l1 else 'energy'
    w = (base(name), kw)
    return t.mod('wavelets').Wavelet(w) if inst else w


SC = {'log': 2. * 2 ** (np.arange(3) / 4.), 'lin': np.array([1.5, 2.5, 3.5, 4.5]),
      'one': 2.3 * 2 ** (np.arange(3) / 8.), 'pw': U.scales('log-piecewise', 6)[0]}


def cfgs(tier):
    out, i = [], 0
    for name in list(WAVS) + ['custom']:
        for l1 in (True, False):
            for nd in (1, 2):
                N = (5, 4, 6, 3, 7, 8, 2, 9)[i % 8]
                out.append(dict(wav=name, l1=l1, nd=nd, N=N,
                                sc=('log', 'lin', 'pw')[i % 3]))
                i += 1
    return out


@harness(cfgs)
def definition(t, wav, l1, nd, N, sc):
    cwt = t.mod('').cwt
    scales = SC[sc]
    x = t.real('x', (N,) if nd == 1 else (1 + N % 3, N))
    x0 = t.copy(x)
    tol = 1e-4 if wav == 'custom' else 1e-6     # custom: single precision
    i = 0
    for padtype in PADS:
        for vec in (True, False):
            M, n1 = lens(N, padtype)
            fs = (1., 2., .5)[i % 3]
            rp = i % 4 == 3
            inst = i % 2 == 1
            psih = psih_of(wav, scales, M, l1)
            norm = None if l1 else np.sqrt(scales)
            kw = dict(padtype=padtype, l1_norm=l1, vectorized=vec, rpadded=rp)
            if i % 3:
                kw['fs'] = fs
            elif N > 2:
                kw['t'] = np.arange(N) / fs
            else:
                kw['fs'] = fs
            if inst:
                kw['cache_wavelet'] = (True, False, None)[i % 3]
            i += 1
            sc_in = scales.copy()
            W, s, dW = cwt(x, wav_arg(t, wav, l1, inst), scales=sc_in,
                           derivative=True, **kw)
            tag = 'pad=%s vectorized=%s rpadded=%s' % (padtype, vec, rp)
            e = cwt_def(t, x0, psih, padtype, rp, norm)
            t.close(W, e, tol, 'definition; ' + tag)
            d = cwt_def(t, x0, psih, padtype, rp, norm,
                        1j * wavlib.dft_freqs(M) * fs)
            t.close(dW, d, 10 * tol, 'derivative: spectrum times i*xi*fs; ' + tag)
            t.close(t.np.atleast_1d(s), scales, 1e-5 if wav == 'custom' else 1e-12,
                    'returned scales')
            t.close(sc_in, scales, 0., 'scales untouched')
            W1, _ = cwt(x, wav_arg(t, wav, l1, not inst), scales=scales, **kw)
            t.close(W1, e, tol, 'same without the derivative; ' + tag)
            t.close(x, x0, 1e-12, 'input untouched')
    t.obs('W', W)


@harness(lambda tier: [dict(sc=s, wav=w, l1=l) for s in
                       ('log', 'linear', 'log-piecewise', 'log:minimal',
                        'log:maximal', 'log:naive')
                       for w, l in ((('gmw' if ':m' not in s and s[-1] == 'e' or
                                      s == 'log:maximal' else 'gmw2'), True),
                                    ('morlet', False))], xtol=1e-4)
def named_scales(t, sc, wav, l1):
    """String scales equal passing the generated array, and are honoured."""
    N, nv = (64 if wav[:3] == 'gmw' else 32), 2
    x = t.real('x', (N,))
    x0 = t.copy(x)
    m = t.mod('')
    wavelet = wav_arg(t, wav, l1, False)
    kw = dict(l1_norm=l1)
    with U.memo(t):
        ps = t.mod('utils').process_scales(
            sc, N, t.mod('wavelets').Wavelet(
                wav_arg(t, wav, l1, True).config and (base(wav), wav_arg(
                    t, wav, l1, True).config)), nv=nv)
        W, s = m.cwt(x, wavelet, scales=sc, nv=nv, **kw)
    ps = np.asarray(ps, dtype=float).ravel()
    t.close(s, ps, 1e-6 * float(ps.max()), 'generated scales are used')
    pick = sorted({0, len(ps) // 2, len(ps) - 1})
    M, n1 = lens(N, 'reflect')
    t.eqs(tuple(W.shape), (len(ps), N), 'one row per scale')
    e = cwt_def(t, x0, psih_of(wav, ps[pick], M, l1), 'reflect', False,
                None if l1 else np.sqrt(ps[pick]))
    t.close(W[pick], e, 1e-5, 'definition at the generated scales')


def ho_cfgs(tier):
    return [dict(order=o, average=a, deriv=d, nd=nd) for o, a, nd in
            ((1, None, 1), (2, None, 1), (3, None, 2), ((0, 1), None, 1),
             ((0, 1, 2), None, 1), ((0, 2), False, 1), ([0, 1], True, 1),
             (1, True, 1), ((0, 1), True, 1)) for d in (False, True)
            if not (nd == 2 and d)]


@harness(ho_cfgs)
def orders(t, order, average, deriv, nd):
    """Higher orders are the CWT with the higher-order wavelet; averages are
    means of the individual orders."""
    order = tuple(order) if isinstance(order, list) else order
    N = 5
    x = t.real('x', (N,) if nd == 1 else (2, N))
    x0 = t.copy(x)
    scales = SC['log']
    wav = ('gmw', dict(gamma=3., beta=6., dtype='float64'))
    out = t.mod('').cwt(x, wav, scales=scales, order=order, average=average,
                        derivative=deriv, fs=2.)
    M, n1 = lens(N, 'reflect')
    ks = [order] if isinstance(order, int) else list(order)
    es, ds = [], []
    for k in ks:
        p = wavlib.sample('gmw', scales, M, nohalf=False, gamma=3., beta=6.,
                          order=k)
        es.append(cwt_def(t, x0, p, 'reflect', False))
        ds.append(cwt_def(t, x0, p, 'reflect', False, None,
                          2j * wavlib.dft_freqs(M)))
    avg = len(ks) > 1 and (average or (average is None))

    def mean(v):
        s = v[0]
        for q in v[1:]:
            s = s + q
        return s * (1. / len(v))
    for got, exp, nm in ((out[0], es, 'transform'),) + (
            ((out[-1], ds, 'derivative'),) if deriv else ()):
        if avg:
            t.close(t.np.squeeze(got), mean(exp), 1e-5,
                    'mean of the individual orders: ' + nm)
        elif len(ks) == 1:
            t.close(got, exp[0], 1e-5, 'single order: ' + nm)
        else:
            t.eqs(len(got), len(ks), 'one transform per order')
            for g, e in zip(got, exp):
                t.close(g, e, 1e-5, 'each order: ' + nm)
    t.close(x, x0, 1e-12, 'input untouched')


@harness(lambda tier: [dict(order=o, padtype=p, nd=nd, fs=fs)
                       for o in (0, 1, 2, (0, 1), (0, 1, 2)) for p in
                       ('reflect', 'wrap', None) for nd in (1, 2)
                       for fs in (2., .5) if (fs == 2.) == (nd == 1)])
def ssq_orders(t, order, padtype, nd, fs):
    """The transform and derivative that ssq_cwt squeezes, for every order."""
    N = 5
    x = t.real('x', (N,) if nd == 1 else (2, N))
    x0 = t.copy(x)
    scales = SC['log']
    wav = ('gmw', dict(gamma=3., beta=6., dtype='float64'))
    m = t.mod('_ssq_cwt')
    got = {}

    sig = inspect.signature(m.ssqueeze) if hasattr(m, 'ssqueeze') else None

    def squeeze(*a, **kw):
        b = sig.bind(*a, **kw).arguments
        for k in ('Wx', 'dWx'):
            if b.get(k) is not None:
                got[k] = t.copy(b[k])
        return b['Wx'] * 0., np.arange(1., 4.)

    with U.patched(m, ssqueeze=squeeze), U.par(False):
        out = m.ssq_cwt(x, wav, scales=scales, order=order, fs=fs,
                        padtype=padtype, get_dWx=True)
    M, n1 = lens(N, padtype)
    ks = [order] if isinstance(order, int) else list(order)
    W = D = 0.
    for k in ks:
        p = wavlib.sample('gmw', scales, M, nohalf=False, gamma=3., beta=6.,
                          order=k)
        W = W + cwt_def(t, x0, p, padtype, False) * (1. / len(ks))
        D = D + cwt_def(t, x0, p, padtype, False, None,
                        1j * fs * wavlib.dft_freqs(M)) * (1. / len(ks))
    for a, b, nm in ((out[1], W, 'transform'), (out[4], D, 'derivative'),
                     (got.get('Wx', W), W, 'squeezed transform'),
                     (got.get('dWx', D), D, 'squeezed derivative')):
        t.eqs(tuple(a.shape), tuple(b.shape), nm + ': shape')
        t.close(a, b, 1e-5, nm)
    t.close(x, x0, 1e-12, 'input untouched')


@harness(lambda tier: [dict(N=N) for N in (3, 4)])
def nonfinite(t, N):
    """NaN / infinite samples are zeroed (nan_checks), input untouched."""
    x = t.ereal('x', (N,), -1., 1., ninf=True, nan=True)
    x0 = t.copy(x)
    W, _ = t.mod('').cwt(x, ('morlet', dict(mu=5., dtype='float64')),
                         scales=SC['one'])
    fin = t.np.isinf(x0) | t.np.isnan(x0)
    xz = t.np.array([t.ite(fin[i], 0., x0[i]) for i in range(N)])
    M, n1 = lens(N, 'reflect')
    p = wavlib.sample('morlet', SC['one'], M, nohalf=False, mu=5.)
    t.close(W, cwt_def(t, xz, p, 'reflect', False), 1e-6,
            'non-finite samples count as zero')
    for i in range(N):
        t.true((t.np.isnan(x[i]) == t.np.isnan(x0[i])) &
               (t.np.isinf(x[i]) == t.np.isinf(x0[i])), 'input untouched')
