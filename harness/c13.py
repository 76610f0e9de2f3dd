# -*- coding: utf-8 -*-
"""C13: ISTFT exactly inverts STFT."""
import numpy as np
from symx.api import harness
from harness import util as U
from harness.c12lib import win_of, padded

BOUNDS = ('signals of 1..10 arbitrary samples, n_fft 2..8 (odd and even), win_len <= n_fft, '
          'hops 1..n_fft+1, every padding, exponents 0..3, modulated on/off, N given, '
          'implied, or any other with the same hop count; arbitrary (not only consistent) transforms of 2-4 rows for '
          'the coverage guard')
ASSUMPTIONS = ['exactness is asserted at samples whose overlap-added window norm exceeds '
               '1e-3 in magnitude; samples with zero norm must come back undivided']
ARR = np.array([.3, 1., -.5, .7, .2, .6, -.9, .4])


def cfgs(tier):
    out = []
    for N, n_fft, wl, win in ((5, 4, None, 'hann'), (6, 5, None, 'hamming'),
                              (7, 8, 5, 'hamming'), (4, 6, 3, 'boxcar'),
                              (9, 9, None, None), (3, 7, 4, 'blackman'),
                              (1, 4, None, 'hamming'), (6, 3, None, 'arr'),
                              (6, 6, 4, 'arr'), (10, 2, None, 'hamming'),
                              (9, 8, None, 'flattop'), (5, 3, None, 'neg'),
                              (6, 4, 3, 'neg')):
        for mod in (True, False):
            out.append(dict(N=N, n_fft=n_fft, wl=wl, win=win, mod=mod))
    return out


@harness(cfgs)
def roundtrip(t, N, n_fft, wl, win, mod):
    m = t.mod('')
    L = wl or n_fft
    if win == 'arr':
        w = window = ARR[:L]
    elif win == 'neg':
        w = window = -np.abs(ARR[:L])
    else:
        w, window = win_of(win, L), win
    wf = padded(w, n_fft)
    c = n_fft // 2
    x = t.real('x', (N,))
    x0 = t.copy(x)
    pads = ('reflect', 'zero', 'symmetric', 'replicate', 'wrap')
    i = 0
    for hop in sorted({1, 2, 3, n_fft - 1, n_fft, n_fft + 1}):
        if hop < 1:
            continue
        for we in (0, 1, 2, 3):
            padtype = pads[i % 5]
            i += 1
            H = (N - 1) // hop + 1
            kw = dict(n_fft=n_fft, hop_len=hop, modulated=mod)
            if wl is not None and (isinstance(window, str) or i % 2):
                kw['win_len'] = wl
            Sx = m.stft(x, window if isinstance(window, str) or window is None
                        else window.copy(), padtype=padtype, dtype='float64',
                        **kw)
            if n_fft % 2 == 0 and i % 3 == 0:
                kw.pop('n_fft')
            S0 = t.copy(Sx)
            for Ng in ((N, None) if i % 2 else (N, hop * H, (H - 1) * hop + 1)):
                if we == 1:
                    y = m.istft(Sx, window, N=Ng, **kw)
                else:
                    y = m.istft(Sx, window, N=Ng, win_exp=we, **kw)
                Nr = Ng if Ng is not None else hop * H
                tag = 'hop=%d exp=%d pad=%s N=%s' % (hop, we, padtype, Ng)
                t.eqs(tuple(y.shape), (Nr,), 'returned length; ' + tag)
                # norm at each sample, from the frames of the forward transform
                for p in range(min(Nr, N)):
                    nz, cov = 0., False
                    for h in range(H):
                        k = p - h * hop + c
                        if 0 <= k < n_fft:
                            nz += wf[k] ** (we + 1)
                            cov = cov or wf[k] != 0
                    if abs(nz) > 1e-3:
                        t.close(y[p], x0[p], 1e-6 / min(abs(nz), 1.),
                                'sample recovered; ' + tag)
                    elif not cov:
                        t.close(y[p], 0., 1e-9, 'uncovered sample stays '
                                'undivided; ' + tag)
                t.close(Sx, S0, 1e-12, 'transform untouched')
    t.close(x, x0, 1e-12, 'signal untouched')


@harness(lambda tier: [dict(n_fft=n, H=H, hop=h, mod=m)
                       for n, H, h in ((2, 3, 1), (4, 3, 1), (4, 2, 2), (5, 3, 2),
                                       (6, 2, 3), (3, 3, 3)) for m in (True, False)])
def any_transform(t, n_fft, H, hop, mod):
    """istft of an arbitrary transform is the weighted overlap-add of the
    inverse DFTs divided by the window norm."""
    F = n_fft // 2 + 1
    Sx = t.cplx('Sx', (F, H))
    S0 = t.copy(Sx)
    w = np.abs(ARR[:n_fft]) + .1
    c = n_fft // 2
    for we in (0, 1, 2):
        y = t.mod('').istft(Sx, w.copy(), n_fft=n_fft, hop_len=hop,
                            modulated=mod, win_exp=we)
        N = hop * H
        t.eqs(tuple(y.shape), (N,), 'implied length')
        for p in range(N):
            s, nz = 0., 0.
            for h in range(H):
                k = p - h * hop + c
                if not 0 <= k < n_fft:
                    continue
                v = 0.
                for f in range(F):
                    a = 2 * np.pi * f * ((k - c) if mod else k) / n_fft
                    g = 1. if f == 0 or 2 * f == n_fft else 2.
                    v = v + (S0[f, h].real * np.cos(a) -
                             (0. if g == 1. else S0[f, h].imag * np.sin(a))) * (
                        g / n_fft)
                s = s + v * w[k] ** we
                nz += w[k] ** (we + 1)
            t.close(y[p], s * (1 / nz) if nz else s, 1e-6,
                    'weighted overlap-add over the window norm')
        t.close(Sx, S0, 1e-12, 'transform untouched')
