# -*- coding: utf-8 -*-
"""C12: STFT equals its definition."""
import numpy as np
from symx.api import harness
from harness import util as U
from harness.c12lib import win_of, padded, diff_window, diff_matrix, stft_def

BOUNDS = ('signals of 1..9 arbitrary samples in [-1, 1] (1-2 rows), n_fft 1..8, win_len <= '
          'n_fft, every padding, hops 1..n_fft+1, several windows (and an arbitrary '
          'symbolic window of up to 6 samples), fs arbitrary in [0.5, 64]')
ASSUMPTIONS = ['window fetched by name is the one scipy.signal.get_window returns']


def def_cfgs(tier):
    out = []
    for N, n_fft, wl, win in ((5, 4, None, 'hann'), (6, 5, None, 'hamming'),
                              (7, 8, 5, 'hamming'), (4, 6, 3, 'boxcar'),
                              (9, 9, None, None), (3, 7, 4, 'blackman'),
                              (1, 4, None, 'hamming'), (6, 3, 3, 'arr'),
                              (6, 6, 4, 'arr'), (4, 1, None, 'boxcar'),
                              (5, 2, None, 'hamming')):
        for mod in (True, False):
            for nd in (1, 2) if N in (5, 6, 7) else (1,):
                out.append(dict(N=N, n_fft=n_fft, wl=wl, win=win, mod=mod, nd=nd))
    return out


@harness(def_cfgs)
def definition(t, N, n_fft, wl, win, mod, nd):
    L = wl or n_fft
    if win == 'arr':
        w = np.array([.3, 1., -.5, .7, .2, .6])[:L]
        window = w.copy()
    else:
        w, window = win_of(win, L), win
    wf = padded(w, n_fft)
    dw = diff_window(wf)
    x = t.real('x', (N,) if nd == 1 else (2, N))
    x0 = t.copy(x)
    pads = ('reflect', 'zero', 'symmetric', 'replicate', 'wrap')
    i = 0
    for hop in sorted({1, 2, 3, n_fft + 1}):
        for par in (False, True):
            padtype = pads[i % 5]
            i += 1
            fs = (1., 2.5, .5)[i % 3]
            kw = dict(n_fft=n_fft, hop_len=hop, padtype=padtype, modulated=mod,
                      dtype='float64')
            if i % 2:
                kw['fs'] = fs
            else:
                kw['t'] = np.arange(N) / fs
            if N == 1:
                kw.pop('t', 0)
                kw['fs'] = fs
            if wl is not None and (win != 'arr' or i % 2):
                kw['win_len'] = wl
            with U.par(par):
                Sx, dSx = t.mod('').stft(x, window, derivative=True, **kw)
                S1 = t.mod('').stft(x, window, **kw)
            tag = 'hop=%d pad=%s' % (hop, padtype)
            e = stft_def(t, x0, wf, hop, padtype, mod)
            t.close(Sx, e, 1e-7, 'windowed DFT of each segment; ' + tag)
            t.close(S1, e, 1e-7, 'same without the derivative; ' + tag)
            d = stft_def(t, x0, dw * fs, hop, padtype, mod)
            t.close(dSx, d, 1e-7, 'derivative uses the window derivative '
                    'times fs; ' + tag)
            t.close(x, x0, 1e-12, 'input untouched')
    t.obs('Sx', Sx)


@harness(lambda tier: [dict(N=N, mod=m) for N in (9, 18) for m in (True, False)],
         xtol=1e-4)
def defaults(t, N, mod):
    """n_fft, window, hop and precision defaults."""
    x = t.real('x', (N,))
    x0 = t.copy(x)
    for hop in (None, 2) if N > 9 else (None,):
        kw = dict(modulated=mod)
        if hop:
            kw['hop_len'] = hop
        n_fft = min(N // (hop or 1), 512)
        Sx, dSx = t.mod('').stft(x, derivative=True, dtype='float64', **kw)
        w = win_of(None, n_fft)
        t.close(Sx, stft_def(t, x0, w, hop or 1, 'reflect', mod), 1e-7,
                'defaults: dpss window of n_fft samples, reflect')
        t.close(dSx, stft_def(t, x0, diff_window(w), hop or 1, 'reflect', mod),
                1e-7, 'defaults: derivative in units of samples')
        S2 = t.mod('').stft(x, **kw)
        t.close(S2, stft_def(t, x0, w, hop or 1, 'reflect', mod), 1e-3,
                'default precision')
        t.eqs(str(S2.dtype), 'complex64', 'default precision')
        t.eqs(str(Sx.dtype), 'complex128', 'requested precision')


@harness(lambda tier: [dict(n=n, n_fft=f) for n, f in
                       ((1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (3, 4),
                        (3, 6), (4, 5), (2, 6))], max_paths=4000)
def window(t, n, n_fft):
    """Arbitrary window: zero padding and spectral derivative."""
    w = t.real('w', (n,), .1, 1.)
    w0 = t.copy(w)
    gw = t.mod('_stft').get_window
    wp, dwp = gw(w, n, n_fft, derivative=True, dtype='float64')
    p = n_fft - n
    e = [0.] * (p // 2) + [w0[i] for i in range(n)] + [0.] * (p - p // 2)
    e = t.np.array([q + 0. for q in e])
    t.close(wp, e, 1e-9, 'window centred by zero padding')
    D = diff_matrix(n_fft)
    for i in range(n_fft):
        s = 0.
        for j in range(n_fft):
            s = s + e[j] * float(D[i, j])
        t.close(dwp[i], s, 1e-9, 'spectral derivative of the window')
    w1 = gw(w, n, n_fft, dtype='float64')
    t.close(w1, e, 1e-9, 'same window without the derivative')
    t.close(w, w0, 1e-12, 'window untouched')
    t.raises(ValueError, lambda: gw(w, n, n - 1) if n > 1 else gw(w, 2, 1),
             'win_len > n_fft is rejected')


@harness(lambda tier: [dict(n_fft=n, hop=h, mod=m) for n, h in
                       ((4, 1), (5, 2), (3, 3), (6, 4)) for m in (True, False)])
def any_window(t, n_fft, hop, mod):
    """STFT with an arbitrary symbolic window, fixed signal."""
    w = t.real('w', (n_fft,), .1, 1.)
    w0 = t.copy(w)
    x = np.random.RandomState(n_fft).uniform(-1, 1, 7)
    with U.patched(t.mod('_stft'), _check_NOLA=lambda *a, **k: None):
        Sx = t.mod('').stft(t.const(x), w, hop_len=hop, n_fft=n_fft,
                            modulated=mod, dtype='float64')
    t.close(Sx, stft_def(t, t.const(x), w0, hop, 'reflect', mod), 1e-7,
            'definition for every window')
    t.close(w, w0, 1e-12, 'window untouched')


@harness(lambda tier: [dict(F=F, kind=k) for F in (2, 3, 5)
                       for k in ('fs', 't')])
def row_freqs(t, F, kind):
    """Row frequencies 0..fs/2 whatever the sampling rate."""
    Sx = t.cplx('Sx', (F, 3))
    dSx = t.cplx('dSx', (F, 3))
    seen = {}

    def fake_ssq(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None,
                 t=None, *a, **k):
        seen.update(Sfs=Sfs)
        return Wx, Sfs
    fs = t.real('fs', (), .5, 64.)
    kw = dict(fs=fs) if kind == 'fs' else dict(
        t=t.np.array([i * t.div(1., fs) for i in range(3)]))
    with U.patched(t.mod('_ssq_stft'), stft=U.fake_stft(Sx, dSx),
                   ssqueeze=fake_ssq):
        out = t.mod('').ssq_stft(np.zeros(3), 'hann', n_fft=2 * F - 2, **kw)
    Sfs = out[3]
    t.eqs(tuple(Sfs.shape), (F,), 'one frequency per row')
    for k in range(F):
        t.close(Sfs[k], fs * (.5 * k / (F - 1)), 1e-6,
                'row frequencies run linearly from 0 to fs/2')
