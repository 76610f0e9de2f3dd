# -*- coding: utf-8 -*-
"""C15: inverse CWT is the documented weighted sum over scales."""
import numpy as np
from symx.api import harness
from harness import util as U
from harness import wavlib

BOUNDS = ('transforms of 3..8 scales and 1..6 (8 padded) time samples, arbitrary complex '
          'values, 1-3 inputs for batches, log / linear / log-piecewise scales '
          '(given or generated), both norms, arbitrary mean')
ASSUMPTIONS = ['admissibility constants (quadrature) taken from the library as numbers']

WAVS = {'gmw': ('gmw', {}), 'gmw2': ('gmw', dict(gamma=3., beta=8.)),
        'morlet': ('morlet', dict(mu=5.)), 'bump': ('bump', dict(mu=4., s=1.2)),
        'cmhat': ('cmhat', dict(mu=.8, s=1.))}


def pieces(kind, R):
    """(scales, [(slice, per-octave density or None)])"""
    if kind == 'log':
        return 2. * 2 ** (np.arange(R) / 4.), [(slice(0, R), 4.)]
    if kind == 'log3':
        return 3. * 2 ** (np.arange(R) / 3.), [(slice(0, R), 3.)]
    if kind == 'linear':
        return 2. + .75 * np.arange(R), [(slice(0, R), None)]
    # piecewise: nv = 8 first, then nv = 2
    k = {'pw1': R - 1, 'pw2': R - 2, 'pwf': 2}.get(kind, R // 2)
    e = np.hstack([np.arange(k) / 8., (k - 1) / 8. + np.arange(1, R - k + 1) / 2.])
    return 2. * 2 ** e, [(slice(0, k), 8.), (slice(k, R), 2.)]


def wav(t, name, l1, inst):
    n, kw = WAVS[name]
    kw = dict(kw, dtype='float64')
    if not inst:
        return (n, kw)
    if n == 'gmw':
        kw['norm'] = 'bandpass' if l1 else 'energy'
    return t.mod('wavelets').Wavelet((n, kw))


def const(t, name, l1, one_int):
    n, kw = WAVS[name]
    kw = dict(kw, dtype='float64')
    if n == 'gmw':
        kw['norm'] = 'bandpass' if l1 else 'energy'
    u = t.mod('utils')
    return (u.adm_ssq if one_int else u.adm_cwt)((n, kw))


def weight(scales, dens, l1, C):
    """Weight of every scale in the sum, by the documented formulas."""
    a = np.asarray(scales)
    if dens is not None:
        return (2 / C) * np.log(2) / dens / (np.ones(len(a)) if l1 else a ** .5)
    return (2 / C) * np.pi / 4 / (a if l1 else a ** 1.5)


def cfgs(tier):
    out, i = [], 0
    for kind in ('log', 'log3', 'linear', 'log-piecewise', 'pw1', 'pw2', 'pwf'):
        for name in WAVS:
            for l1 in (True, False):
                nd = 3 if i % 3 == 2 else 2
                R = {'log-piecewise': (6, 7, 8), 'pw1': (4, 5, 6), 'pw2': (5, 6, 7),
                     'pwf': (5, 7, 6)}.get(kind, (3, 4, 5))[i % 3]
                out.append(dict(kind=kind, wav=name, l1=l1, nd=nd, R=R,
                                N=(1, 4, 3, 2)[i % 4]))
                i += 1
    return out


@harness(cfgs)
def one_integral(t, kind, wav, l1, nd, R, N):
    icwt = t.mod('').icwt
    scales, pcs = pieces(kind, R)
    B = (1 + N % 3,) if nd == 3 else ()
    W = t.cplx('W', B + (R, N))
    W0 = t.copy(W)
    mean = t.real('mean', B if B else (1,))
    if not B:
        mean = mean[0]
    with U.memo(t):
        C = const(t, wav, l1, True)
        outs = []
        for k, (inst, mu) in enumerate(((False, None), (True, mean))):
            wv = globals()['wav'](t, wav, l1, inst)
            s_in = scales.copy()
            if k:
                s_in = s_in.reshape(-1, 1)
            kw = {} if mu is None else dict(x_mean=mu)
            x = icwt(W, wv, scales=s_in, l1_norm=l1, **kw)
            outs.append((x, mu))
            t.eqs(x.shape, B + (N,), 'one sample per column')
    e = 0.
    for sl, d in pcs:
        w = weight(scales[sl], d, l1, C)
        for r in range(R)[sl]:
            e = e + W0[..., r, :].real * float(w[r - (sl.start or 0)])
    for x, mu in outs:
        ee = e
        if mu is not None:
            ee = e + (mean[..., None] if B else mean)
        t.close(x, ee, 1e-5, 'weighted sum over scales' + (
            '' if mu is None else ', plus the mean once'))
    t.close(W, W0, 0., 'input untouched')
    t.obs('x', outs[-1][0])


@harness(lambda tier: [c for i, c in enumerate(cfgs(tier)) if c['nd'] == 2])
def two_integral(t, kind, wav, l1, nd, R, N):
    icwt = t.mod('').icwt
    scales, pcs = pieces(kind, R)
    N = N + 1
    n_up = 2 ** (1 + int(np.round(np.log2(N))))
    n1 = (n_up - N + 1) // 2
    i = len(wav) + R
    rp = i % 2 == 0
    pad = ('reflect', 'zero', 'symmetric', 'replicate', 'wrap')[i % 5]
    W = t.cplx('W', (R, n_up if rp else N))
    W0 = t.copy(W)
    mean = t.real('mean', ())
    with U.memo(t):
        C = const(t, wav, l1, False)
        x = icwt(W, globals()['wav'](t, wav, l1, i % 3 == 0), scales=scales,
                 one_int=False, padtype=pad, x_mean=mean, l1_norm=l1, rpadded=rp,
                 **(dict(x_len=N) if rp else {}))
    n, kw = WAVS[wav]
    kw = dict(kw)
    if n == 'gmw':
        kw['norm'] = 'bandpass' if l1 else 'energy'
    psih = wavlib.sample(n, scales, n_up, nohalf=True, **kw)
    F = np.exp(-2j * np.pi * np.outer(np.arange(n_up), np.arange(n_up)) / n_up)
    e = [0.] * N
    for sl, d in pcs:
        w = weight(scales[sl], d, l1, C)
        for r in range(R)[sl]:
            G = np.conj(F) @ (psih[r][:, None] * F) / n_up
            if rp:
                row = [W0[r, m] for m in range(n_up)]
            else:
                row = [U.ext(W0[r], m - n1, N, pad, t) for m in range(n_up)]
            for q in range(N):
                for m in range(n_up):
                    e[q] = e[q] + (row[m] * complex(G[n1 + q, m])).real * \
                        float(w[r - (sl.start or 0)])
    t.close(x, t.np.array(e) + mean, 1e-5,
            'Re of the inverse DFT of (DFT of row x wavelet), weighted')
    t.close(W, W0, 0., 'input untouched')
    t.obs('x', x)


@harness(lambda tier: [dict(sc=s, wav=w, l1=l) for s in
                       ('log', 'linear', 'log-piecewise', 'log:maximal', 'log:naive')
                       for w, l in (('gmw2', True), ('morlet', False))])
def named_scales(t, sc, wav, l1):
    """String scales equal the array they stand for, made for x_len samples."""
    m = t.mod('')
    N, nv = 32, 2
    wv = globals()['wav'](t, wav, l1, True)
    with U.memo(t):
        ps = np.asarray(t.mod('utils').process_scales(sc, N, wv, nv=nv),
                        dtype=float).ravel()
        W = t.cplx('W', (len(ps), 1))
        a = m.icwt(W, wv, scales=sc, nv=nv, x_len=N, l1_norm=l1)
        b = m.icwt(W, wv, scales=ps, l1_norm=l1)
    t.close(a, b, 1e-5, 'string scales = generated array')
    t.obs('a', a)


@harness(lambda tier: [dict(wav='gmw2', B=B, R=R) for B, R in ((1, 3), (2, 3), (3, 3))])
def batched_two_integral(t, wav, B, R):
    """A batch is inverted like its elements, or refused; never mixed up."""
    icwt = t.mod('').icwt
    scales, _ = pieces('log', R)
    N = 3
    W = t.cplx('W', (B, R, N))
    with U.memo(t):
        wv = globals()['wav'](t, wav, True, False)
        kw = dict(scales=scales, one_int=False)
        per = [icwt(W[b].copy(), wv, **kw) for b in range(B)]
        try:
            x = icwt(W.copy(), wv, **kw)
        except NotImplementedError:
            t.true(True, 'refused')
            return
    t.eqs(x.shape, (B, N), 'one row per input')
    for b in range(B):
        t.close(x[b], per[b], 1e-6, 'batched inverse equals the single one')
