# -*- coding: utf-8 -*-
"""C05: inverse synchrosqueezing and component split."""
import numpy as np
from symx.api import harness
from harness import util as U

BOUNDS = ('Tx 2-5 x 1-3 with arbitrary complex entries in [-1, 1]; centres any row index or '
          '-1, half-widths 0..R+1 (symbolic integers); 1-3 components; windows hann / '
          'custom array, win_len <= n_fft; wavelets gmw, morlet, bump')
ASSUMPTIONS = ['admissibility constant taken from the library (see C26)']
FACT = {}
WAVS = {'gmw': 'gmw', 'morlet': ('morlet', {'mu': 5}), 'bump': 'bump'}


def factor(t, api, kw, R):
    if api == 'cwt':
        return 2 / float(t.mod('utils').adm_ssq(kw['wavelet']))
    win = kw.get('window')
    nf = kw.get('n_fft') or (R - 1) * 2
    wl = kw.get('win_len') or nf
    if isinstance(win, str):
        import scipy.signal as sig
        w = sig.get_window(win, wl, fftbins=True)
    else:
        w = win
    p = nf - wl
    if p:
        w = np.hstack([np.zeros(p // 2), w, np.zeros(p - p // 2)])
    return 2 / float(w[nf // 2])


def kwargs(api, var, R):
    if api == 'cwt':
        return dict(wavelet=WAVS[var])
    nf = (R - 1) * 2
    if var == 'hann':
        return dict(window='hann')
    if var == 'short':
        return dict(window='hamming', n_fft=2 * nf, win_len=nf + 1)
    if var == 'array':
        w = 1. / (1 + (np.arange(nf) - nf // 2) ** 2) * 1.5
        return dict(window=w, n_fft=nf)
    if var == 'odd':
        return dict(window='hamming', n_fft=nf + 1)


def call(t, api, Tx, kw, **more):
    m = t.mod('')
    return (m.issq_cwt if api == 'cwt' else m.issq_stft)(Tx, **kw, **more)


VARS = [('cwt', 'gmw'), ('cwt', 'morlet'), ('cwt', 'bump'), ('stft', 'hann'),
        ('stft', 'short'), ('stft', 'array'), ('stft', 'odd')]


@harness(lambda tier: [dict(api=a, var=v, R=R, N=N) for a, v in VARS
                       for R, N in ((3, 3), (5, 2))])
def full(t, api, var, R, N):
    Tx = t.cplx('Tx', (R, N))
    T0 = t.copy(Tx)
    kw = kwargs(api, var, R)
    x = call(t, api, Tx, kw)
    c = factor(t, api, kw, R)
    t.eqs(tuple(x.shape), (N,), 'one sample per column')
    for j in range(N):
        s = 0.
        for i in range(R):
            s = s + T0[i, j].real
        t.close(x[j], c * s, 1e-6, 'constant times the real column sum')
    t.close(Tx, T0, 1e-12, 'input untouched')
    t.obs('x', x)


def band_cfgs(tier):
    q = [('cwt', 'gmw', 3, 1, 1, 2), ('cwt', 'gmw', 3, 2, 1, 2),
         ('cwt', 'gmw', 4, 1, 1, 2), ('cwt', 'morlet', 3, 1, 2, 2),
         ('cwt', 'gmw', 4, 1, 1, 1), ('cwt', 'gmw', 2, 2, 1, 1),
         ('stft', 'hann', 3, 1, 1, 2), ('stft', 'array', 3, 2, 1, 1),
         ('stft', 'short', 4, 1, 1, 2), ('stft', 'hann', 3, 1, 2, 2),
         ('stft', 'odd', 3, 1, 1, 2)]
    if tier != 'quick':
        q += [('cwt', 'gmw', 5, 1, 1, 2), ('cwt', 'gmw', 2, 1, 3, 2),
              ('stft', 'hann', 5, 2, 1, 2)]
    return [dict(api=a, var=v, R=R, N=N, K=K, nd=nd)
            for a, v, R, N, K, nd in q]


@harness(band_cfgs, max_paths=20000)
def bands(t, api, var, R, N, K, nd):
    Tx = t.cplx('Tx', (R, N))
    T0 = t.copy(Tx)
    top = R + 1 if R < 4 and N == 1 and K == 1 else R - 1 if K == 1 else 1
    cc = [[t.integer('c%d_%d' % (m, k), -1, R - 1) for k in range(K)]
          for m in range(N)]
    cw = [[t.integer('h%d_%d' % (m, k), 0, top) for k in range(K)]
          for m in range(N)]

    def arr(v):
        if nd == 1:
            v = [r[0] for r in v]
        return t.np.array(v) if t.sym else np.array(v, dtype='int64')
    kw = kwargs(api, var, R)
    ca, wa = arr(cc), arr(cw)
    c0, w0 = t.copy(ca), t.copy(wa)
    with U.memo_adm(t):
        x = call(t, api, Tx, kw, cc=ca, cw=wa)
    c = FACT.setdefault((api, var, R, t.sym), None) or factor(t, api, kw, R)
    FACT[(api, var, R, t.sym)] = c
    t.eqs(tuple(x.shape), (K + 1, N), 'one row per component plus remainder')
    for m in range(N):
        rest = 0.
        sums = [0.] * K
        for i in range(R):
            anyb = False
            for k in range(K):
                b = (cc[m][k] != -1) & (cc[m][k] - cw[m][k] <= i) & \
                    (cc[m][k] + cw[m][k] >= i)
                sums[k] = sums[k] + t.ite(b, T0[i, m].real, 0.)
                anyb = anyb | b
            rest = rest + t.ite(anyb, 0., T0[i, m].real)
        for k in range(K):
            t.close(x[k, m], c * sums[k], 1e-6, 'component sums its band')
        t.close(x[K, m], c * rest, 1e-6, 'last output is the remainder')
    t.close(Tx, T0, 1e-12, 'transform untouched')
    t.close(ca, c0, 1e-12, 'centres untouched')
    t.close(wa, w0, 1e-12, 'widths untouched')
    t.obs('x', x)


@harness(lambda tier: [dict()])
def rejects(t):
    Tx = t.cplx('Tx', (3, 2))
    t.raises(ValueError, lambda: t.mod('').issq_stft(Tx, modulated=False),
             'unmodulated inversion is rejected')
    t.raises(ValueError, lambda: t.mod('').issq_stft(Tx, hop_len=2),
             'strided inversion is rejected')
