# -*- coding: utf-8 -*-
"""C03: one-pass and two-step synchrosqueezing agree."""
import numpy as np
from symx.api import harness
from harness import util as U

BOUNDS = ('3-5 rows x 1-2 columns, 3-6 labels; |Re|,|Im| <= 1 for transform and '
          'derivative (zeros and magnitudes equal to gamma included); squeezing sum, abs, '
          'lebesgue, custom; log, linear, log-piecewise labels; serial and parallel '
          'kernels; 2-D and batched input')
ASSUMPTIONS = ['phase transform values exactly on a bin boundary (+-1e-7) excluded']


def double(W):
    return W * (2. - 1.j)


def inplace(W):
    W *= 2.
    return W


SQ = {'sum': 'sum', 'abs': 'abs', 'lebesgue': 'lebesgue', 'fn': double}


def cfgs(tier):
    out = []
    k = 0
    for fk in ('log', 'linear', 'log-piecewise', 'linear0'):
        for sq in SQ:
            for flip in (False, True):
                for par in (False, True):
                    k += 1
                    if tier == 'quick' and (par != flip if k % 32 < 16 else
                                            par == flip):
                        continue
                    if tier == 'quick' and sq != 'sum' and flip != (
                            sq == 'fn') ^ (fk == 'linear'):
                        continue
                    R = 4 if fk == 'log-piecewise' else 3
                    out.append(dict(fk=fk, sq=sq, flip=flip, par=par, R=R,
                                    N=1 if tier == 'quick' else 2,
                                    nf=max(R, 4 if fk == 'log' else 0) +
                                    (1 if k % 3 == 0 else 0),
                                    sk='linear' if k % 2 else 'log'))
    return out


def phase(t, Wx, dWx, Sfs, g, par):
    if Sfs is None:
        return t.mod('_ssq_cwt').phase_cwt(Wx, dWx, gamma=g, parallel=par)
    return t.mod('_ssq_stft').phase_stft(Wx, dWx, Sfs, gamma=g, parallel=par)


@harness(cfgs, hints=U.hints)
def paths(t, fk, sq, flip, par, R, N, nf, sk):
    Wx, dWx = t.cplx('Wx', (R, N)), t.cplx('dWx', (R, N))
    g = .25
    U.apart(t, Wx, g)
    f = U.freqs(fk, nf)
    ssqueeze = t.mod('ssqueezing').ssqueeze
    kw = dict(squeezing=SQ[sq], flipud=flip, gamma=g)
    Sfs = None
    if fk == 'linear0':
        Sfs = U.freqs(fk, R)
        kw.update(transform='stft', Sfs=Sfs, maprange='maximal')
    else:
        kw.update(scales=U.scales(sk, R)[0])
    with U.par(par):
        W1, D1 = t.copy(Wx), t.copy(dWx)
        T1, f1 = ssqueeze(W1, None, ssq_freqs=f.copy(), dWx=D1, **kw)
        W2, D2 = t.copy(Wx), t.copy(dWx)
        w = phase(t, W2, D2, Sfs, g, par)
        T2, f2 = ssqueeze(W2, w, ssq_freqs=f.copy(), **kw)
    t.close(f1, f2, 1e-12, 'same frequency labels')
    t.close(T1, T2, 1e-6, 'one-pass equals two-step (squeezing=%s)' % sq)
    t.close(W1, Wx, 1e-9, 'one-pass leaves the transform unmodified')
    t.close(W2, Wx, 1e-9, 'two-step leaves the transform unmodified')
    t.obs('T1', T1)
    t.obs('T2', T2)


def thr_cfgs(tier):
    return [dict(fk=fk, par=par, R=2 if fk == 'linear0' else 3)
            for fk in ('log', 'log-piecewise', 'linear', 'linear0')
            for par in (False, True)]


@harness(thr_cfgs, hints=U.hints)
def threshold(t, fk, par, R):
    """Magnitudes exactly at gamma and zeros, for any gamma."""
    A = t.real('A', (R, 1), -1., 1.)
    dWx = t.cplx('dWx', (R, 1))
    g = .5
    Wx = A + 0j
    Wx[0, 0] = g
    Wx[1, 0] = 0.
    f = U.freqs(fk, {'log': 4, 'log-piecewise': 5}.get(fk, R))
    ssqueeze = t.mod('ssqueezing').ssqueeze
    kw = dict(flipud=False, gamma=g)
    Sfs = None
    if fk == 'linear0':
        Sfs = U.freqs(fk, R)
        kw.update(transform='stft', Sfs=Sfs, maprange='maximal')
    else:
        kw.update(scales=U.scales('log', R)[0])
    with U.par(par):
        T1, _ = ssqueeze(t.copy(Wx), None, ssq_freqs=f.copy(), dWx=t.copy(dWx),
                         **kw)
        w = phase(t, t.copy(Wx), t.copy(dWx), Sfs, g, par)
        T2, _ = ssqueeze(t.copy(Wx), w, ssq_freqs=f.copy(), **kw)
    t.close(T1, T2, 1e-6, 'coefficients at the threshold are treated alike')


def api_cfgs(tier):
    out = []
    k = 0
    for tr, fks in (('cwt', ('log', 'linear')), ('stft', ('linear0',))):
        for fk in fks:
            for sq in SQ:
                for flip in (False, True):
                    for pt in (None, True, False):
                        k += 1
                        if tier == 'quick' and (k + k // 3 + k // 9) % 4:
                            continue
                        out.append(dict(tr=tr, fk=fk, sq=sq, flip=flip,
                                        preserve=pt))
    return out


def api_hints(cfg):
    if cfg['fk'] != 'log':
        return []
    f = .125 * 2 ** (np.arange(4) * 2 / 3)
    out = list(f)
    for e in U.edges(f, 'log'):
        out += [e * (1 - 1e-9), e, e * (1 + 1e-9)]
    return [float(v) for v in out]


@harness(api_cfgs, hints=api_hints)
def extra_outputs(t, tr, fk, sq, flip, preserve):
    """get_w / get_dWx never change the other outputs of ssq_cwt / ssq_stft."""
    R, g = (4, .25) if fk == 'log' else (3, .25)
    N0 = 8 if tr == 'cwt' else 4
    Wx, dWx = t.cplx('Wx', (R, 1)), t.cplx('dWx', (R, 1))
    U.apart(t, Wx, g)
    z = t.np.zeros((R, N0 - 1)) + 0j
    Wx = t.np.concatenate([Wx, z], axis=1)
    dWx = t.np.concatenate([dWx, z], axis=1)
    x = np.arange(N0) * .1
    outs = {}
    with U.par(False):
        for gw in (False, True):
            for gd in (False, True):
                W1, D1 = t.copy(Wx), t.copy(dWx)
                kw = dict(squeezing=inplace if sq == 'fn' else SQ[sq],
                          flipud=flip, gamma=g, get_w=gw,
                          get_dWx=gd, preserve_transform=preserve)
                if tr == 'cwt':
                    m = t.mod('_ssq_cwt')
                    sc, c = U.scales('log', R)
                    with U.patched(m, cwt=U.fake_cwt(W1, D1, sc.copy())):
                        o = m.ssq_cwt(x, 'gmw', scales=sc, ssq_freqs=fk,
                                      maprange='maximal', **kw)
                else:
                    m = t.mod('_ssq_stft')
                    with U.patched(m, stft=U.fake_stft(W1, D1)):
                        o = m.ssq_stft(x, **kw)
                t.eqs(len(o), 4 + gw + gd, 'requested outputs are returned')
                outs[gw, gd] = o
    for k, o in outs.items():
        for i, nm in enumerate(('Tx', 'Wx', 'ssq_freqs', 'scales')):
            if i == 1 and preserve is False:
                continue            # documented: Wx may be overwritten
            t.close(o[i], outs[False, False][i], 1e-6,
                    '%s does not depend on get_w/get_dWx' % nm)
        if k[0]:
            t.close(o[4], outs[True, True][4], 1e-6, 'w independent of get_dWx')
            w = phase(t, t.copy(Wx), t.copy(dWx), None if tr == 'cwt' else
                      np.linspace(0, .5, R), g, False)
            t.close(o[4], w, 1e-6, 'returned w is the phase transform')
        if k[1]:
            t.close(o[-1], dWx, 1e-9, 'returned dWx is the derivative')
    t.close(outs[True, True][1] if preserve is not False else Wx, Wx, 1e-9,
            'returned transform is the transform')
    t.obs('Tx', outs[True, False][0])
