# -*- coding: utf-8 -*-
"""C07: batched input equals independent processing of each row."""
import numpy as np
from symx.api import harness
from harness import util as U

BOUNDS = ('batches of 1-3 signals (of equal or unequal scale: every sample arbitrary in '
          '[-1, 1]), lengths 2-18; transforms 3-5 rows x 1-3 columns, |Re|,|Im| <= 1; '
          'every padding, squeezing mode, label layout, kernel variant')
ASSUMPTIONS = ['phase transform values exactly on a bin boundary (+-1e-7) excluded']


def each(t, f, x):
    """f of every batch element, stacked."""
    outs = [f(t.copy(x[i])) for i in range(len(x))]
    if isinstance(outs[0], tuple):
        return tuple(t.np.stack([o[k] for o in outs]) for k in range(len(outs[0])))
    return t.np.stack(outs)


def same(t, a, b, msg, tol=1e-9):
    if not isinstance(a, tuple):
        a, b = (a,), (b,)
    t.eqs(len(a), len(b), msg + ': number of outputs')
    for p, q in zip(a, b):
        t.eqs(tuple(p.shape), tuple(q.shape), msg + ': shape')
        t.close(p, q, tol, msg)


PADS = ('reflect', 'zero', 'symmetric', 'replicate', 'wrap')


@harness(lambda tier: [dict(B=b, N=n, padtype=p) for b in (1, 2, 3)
                       for n in (1, 2, 5, 8) for p in PADS])
def pad(t, B, N, padtype):
    m = t.mod('utils.common')
    x = t.real('x', (B, N))
    for L in (None, N, 2 * N + 1):
        kw = dict(padtype=padtype)
        if L:
            kw['padlength'] = L
        a = m.padsignal(t.copy(x), **kw)
        same(t, a, each(t, lambda r: m.padsignal(r, **kw), x), 'padsignal')
    t.obs('a', a)


def stft_cfgs(tier):
    out = []
    for i, (B, N) in enumerate(((1, 7), (2, 9), (3, 8), (2, 18), (2, 6), (3, 12))):
        for mod in (True, False):
            for dt in ('float64', 'float32'):
                out.append(dict(B=B, N=N, mod=mod, dt=dt, off=i))
    return out


@harness(stft_cfgs, xtol=1e-4)
def stft(t, B, N, mod, dt, off):
    m = t.mod('')
    x = t.real('x', (B, N))
    x0 = t.copy(x)
    i = off
    for n_fft, wl in ((N, None), (4, None), (5, 3), (6, 6)):
        for par in (False, True):
            i += 1
            kw = dict(window='hann' if i % 2 else np.hanning(6)[1:5], n_fft=max(5, n_fft)
                      if i % 2 else max(4, n_fft), modulated=mod, dtype=dt,
                      hop_len=1 + i % 3, padtype=PADS[i % 5], fs=(1., 2.)[i % 2])
            if i % 2 and wl:
                kw['win_len'] = wl
            if not i % 2:
                kw['win_len'] = 4
            for der in (True, False):
                with U.par(par):
                    f = lambda v: m.stft(v, derivative=der, **kw)
                    a = f(x)
                    b = each(t, f, x)
                same(t, a, b, 'stft', 1e-9 if dt == 'float64' else 1e-5)
    t.close(x, x0, 0., 'input untouched')
    t.obs('a', a)


def cwt_cfgs(tier):
    out, i = [], 0
    for B, N in ((1, 5), (2, 4), (3, 6), (2, 9), (2, 3), (3, 8)):
        for wav in ('gmw', 'morlet', 'bump'):
            out.append(dict(B=B, N=N, wav=wav, off=i))
            i += 1
    return out


@harness(cwt_cfgs, xtol=1e-5)
def cwt(t, B, N, wav, off):
    m = t.mod('')
    x = t.real('x', (B, N))
    x0 = t.copy(x)
    kws = {'gmw': dict(gamma=3., beta=6.), 'morlet': dict(mu=5.), 'bump': dict(mu=4.)}
    scales = (2. * 2 ** (np.arange(3) / 4.), 1.5 + np.arange(4),
              U.scales('log-piecewise', 6)[0])[off % 3]
    i = off
    for vec in (True, False):
        for pad in PADS + (None,):
            i += 1
            order = 0
            if wav == 'gmw' and i % 4 == 1:
                order = (1, (0, 1), 2)[i % 3]
            kw = dict(scales=scales, vectorized=vec, padtype=pad, l1_norm=bool(i % 3),
                      rpadded=i % 5 == 0, derivative=bool(i % 2), fs=(1., 4.)[i % 2],
                      nan_checks=(None, True, False)[i % 3], order=order)
            wv = (wav, dict(kws[wav], dtype='float64'))
            if i % 2 and not order:
                kw['cache_wavelet'] = bool(i % 4 == 1)
                if wav == 'gmw':
                    wv[1]['norm'] = 'bandpass' if kw['l1_norm'] else 'energy'
                wv = t.mod('wavelets').Wavelet(wv)

            def f(v):
                o = m.cwt(v, wv, **kw)
                return (o[0],) + tuple(o[2:])
            a = f(x)
            b = each(t, f, x)
            same(t, a, b, 'cwt')
    t.close(x, x0, 0., 'input untouched')
    t.obs('a', a[0])


def double(W):
    return W * (2. - 1.j)


SQ = {'sum': 'sum', 'abs': 'abs', 'lebesgue': 'lebesgue', 'fn': double}


def ssq_cfgs(tier):
    out, k = [], 0
    for fk in ('log', 'linear', 'log-piecewise', 'linear0'):
        for sq in SQ:
            for par in (False, True):
                k += 1
                out.append(dict(fk=fk, sq=sq, par=par, flip=(k + k // 2) % 2 == 0,
                                B=1 + k % 2 if tier == 'quick' else 3,
                                R=4 if fk == 'log-piecewise' else 3,
                                N=1 + (k % 3 == 0 and fk[:3] == 'lin')))
    return out


@harness(ssq_cfgs, hints=U.hints, fnlink=False)
def squeeze(t, fk, sq, par, flip, B, R, N):
    """One-pass synchrosqueezing of a batch; no value leaks between elements."""
    ssqueeze = t.mod('ssqueezing').ssqueeze
    B = B + 1
    Wx, dWx = t.cplx('Wx', (B, R, N)), t.cplx('dWx', (B, R, N))
    g = .25
    U.apart(t, Wx, g)
    f = U.freqs(fk, R)
    kw = dict(squeezing=SQ[sq], flipud=flip, gamma=g)
    if fk == 'linear0':
        kw.update(transform='stft', Sfs=U.freqs(fk, R), maprange='maximal')
    else:
        kw.update(scales=U.scales('linear' if R % 2 else 'log', R)[0])
    with U.par(par):
        W1, D1 = t.copy(Wx), t.copy(dWx)
        T, fr = ssqueeze(W1, None, ssq_freqs=f.copy(), dWx=D1, **kw)
        outs = [ssqueeze(t.copy(Wx[i]), None, ssq_freqs=f.copy(), dWx=t.copy(dWx[i]),
                         **kw) for i in range(B)]
    t.eqs(tuple(T.shape), (B, R, N), 'one transform per batch element')
    for i in range(B):
        t.close(fr, outs[i][1], 1e-12, 'same labels')
        t.close(T[i], outs[i][0], 1e-9, 'batched = alone (squeezing=%s)' % sq)
    t.close(W1, Wx, 0., 'transform untouched')
    t.close(D1, dWx, 0., 'derivative untouched')
    t.obs('T', T)


def tag_cwt(W, dW, scales):
    """Stand-in: the transform of the signal starting with i is W[i]."""
    def cwt(x, *a, derivative=False, **kw):
        idx = [int(v) for v in np.atleast_1d(x[..., 0])]
        w = W[np.array(idx)] if x.ndim == 2 else W[idx[0]]
        d = dW[np.array(idx)] if x.ndim == 2 else dW[idx[0]]
        return (w, scales, d) if derivative else (w, scales)
    return cwt


def tag_stft(W, dW):
    c = tag_cwt(W, dW, None)

    def stft(x, *a, derivative=False, **kw):
        w, _, d = c(x, derivative=True)
        return (w, d) if derivative else w
    return stft


def api_cfgs(tier):
    out, k = [], 0
    for tr in ('cwt', 'stft'):
        for sq in SQ:
            for pres in (None, False):
                k += 1
                out.append(dict(tr=tr, sq=sq, preserve=pres, flip=(k // 2) % 2 == 0,
                                B=2 + (k % 4 == 0), gd=k % 3 == 0))
    return out


def api_hints(cfg):
    f = .125 * 2 ** (np.arange(4) * 2 / 3)
    out = list(f)
    for e in U.edges(f, 'log'):
        out += [e * (1 - 1e-9), e, e * (1 + 1e-9)]
    return [float(v) for v in out] if cfg['tr'] == 'cwt' else []


@harness(api_cfgs, hints=api_hints, fnlink=False)
def api(t, tr, sq, preserve, flip, B, gd):
    """ssq_cwt / ssq_stft of a batch of signals with arbitrary transforms."""
    R, N0, g = (4, 8, .25) if tr == 'cwt' else (3, 4, .25)
    Wx, dWx = t.cplx('Wx', (B, R, 1)), t.cplx('dWx', (B, R, 1))
    U.apart(t, Wx, g)
    z = t.np.zeros((B, R, N0 - 1)) + 0j
    Wx = t.np.concatenate([Wx, z], axis=-1)
    dWx = t.np.concatenate([dWx, z], axis=-1)
    x = np.arange(B, dtype=float)[:, None] + np.arange(N0) * .01
    kw = dict(squeezing=SQ[sq], flipud=flip, gamma=g, get_dWx=gd,
              preserve_transform=preserve)

    def run(v):
        W1, D1 = t.copy(Wx), t.copy(dWx)
        if tr == 'cwt':
            m = t.mod('_ssq_cwt')
            sc = U.scales('log', R)[0]
            with U.patched(m, cwt=tag_cwt(W1, D1, sc.copy())):
                return m.ssq_cwt(v, 'gmw', scales=sc, ssq_freqs='log',
                                 maprange='maximal', **kw)
        m = t.mod('_ssq_stft')
        with U.patched(m, stft=tag_stft(W1, D1)):
            return m.ssq_stft(v, **kw)
    with U.par(False):
        a = run(x)
        for i in range(B):
            b = run(x[i])
            t.eqs(len(a), len(b), 'same outputs')
            t.close(a[0][i], b[0], 1e-9, 'batched Tx = alone')
            if preserve is not False:
                t.close(a[1][i], b[1], 1e-9, 'batched transform = alone')
            t.close(a[2], b[2], 1e-12, 'same labels')
            t.close(a[3], b[3], 1e-12, 'same scales')
            if gd:
                t.close(a[4][i], b[4], 1e-9, 'batched derivative = alone')
    t.obs('T', a[0])


@harness(lambda tier: [dict(B=b, R=r, kind=k, l1=l) for b, r in ((1, 3), (2, 4), (3, 6))
                       for k in ('log', 'linear', 'log-piecewise') for l in (0, 1)
                       if not (k == 'log-piecewise' and r < 6)])
def inverse(t, B, R, kind, l1):
    """icwt of a batch."""
    m = t.mod('')
    W = t.cplx('W', (B, R, 3))
    mean = t.real('mean', (B,))
    sc = U.scales(kind, R)[0]
    wav = ('gmw', dict(gamma=3., beta=6., dtype='float64'))
    with U.memo(t):
        for mu in (False, True):
            a = m.icwt(W, wav, scales=sc, l1_norm=bool(l1),
                       **(dict(x_mean=mean) if mu else {}))
            b = t.np.stack([m.icwt(W[i], wav, scales=sc, l1_norm=bool(l1),
                                   **(dict(x_mean=mean[i]) if mu else {}))
                            for i in range(B)])
            same(t, a, b, 'icwt')
    t.obs('a', a)


@harness(lambda tier: [dict(B=b, N=n, rp=r) for b in (1, 2, 3) for n in (4, 5, 8)
                       for r in (True, False)])
def derivative(t, B, N, rp):
    """trigdiff over 1-3 dimensions."""
    m = t.mod('utils.common')
    up, n1, _ = m.p2up(N)
    A = t.cplx('A', (B, 2, int(up) if rp else N))
    kw = dict(fs=2.)
    if rp:
        kw.update(rpadded=True, N=N, n1=int(n1))
    b = t.np.stack([m.trigdiff(A[i], **kw) for i in range(B)])
    a = b
    if rp:              # (only already padded input may be 3-D)
        a = m.trigdiff(A, **kw)
        same(t, a, b, 'trigdiff of a batch')
    c = t.np.stack([t.np.stack([m.trigdiff(A[i, j].reshape(1, -1), **kw)[0]
                                for j in range(2)]) for i in range(B)])
    same(t, a, c, 'trigdiff by rows')
    t.obs('a', a)
