# -*- coding: utf-8 -*-
"""C02: coefficients land on the nearest output frequency; rows match labels."""
import numpy as np
from symx.api import harness
from harness import util as U
from harness.c01 import run, cfgs as c01cfgs, cfgs1 as c01cfgs1

BOUNDS = ('3-6 rows x 1 column, 2-7 output labels; phase transform in [0, 2] or '
          '+inf; label layouts log / linear / both log-piecewise orders')
ASSUMPTIONS = ['w >= 0; exact bin-boundary values (ties, +-1e-7) excluded']


def cfgs(tier):
    out = []
    for c in c01cfgs(tier):
        c = dict(c, N=1)
        out.append(c)
    return out


@harness(cfgs, hints=U.hints)
def twostep(t, fk, sk, flip, par, R, N):
    Wx = t.cplx('Wx', (R, N))
    w = t.ereal('w', (R, N), 0., 2.)
    W0, w0 = t.copy(Wx), t.copy(w)
    Tx, fo, f, c = run(t, Wx, w, fk, sk, flip, par, R)
    t.eqs(tuple(Tx.shape), (R, N), 'one output row per label')
    # labels are returned in the order of the output rows
    t.close(fo, f[::-1] if flip else f, 1e-12, 'labels in the order of the rows')
    t.close(Tx, U.place(t, W0, w0, f, fk, c, flip), 1e-7,
            'each coefficient is in the row of the nearest label')
    t.obs('Tx', Tx)


def nf_cfgs(tier):
    """Number of output labels differs from the number of input rows."""
    out = []
    k = 0
    for fk in ('log', 'linear', 'log-piecewise', 'log-piecewise-rev'):
        for R, nf in ((3, 5), (4, 3), (2, 6)) + (((3, 7), (5, 2))
                                                 if tier != 'quick' else ()):
            if fk.startswith('log-p') and nf < 4:
                continue
            for via in ('ssqueeze', 'onfly'):
                k += 1
                if R == 2 and via == 'ssqueeze':
                    continue
                out.append(dict(fk=fk, R=R, nf=nf, flip=bool(k // 2 % 2),
                                par=bool(k % 3 == 0), via=via))
    return out


@harness(nf_cfgs, hints=U.hints)
def resized(t, fk, R, nf, flip, par, via):
    f = U.freqs(fk, nf)
    Wx = t.cplx('Wx', (R, 1))
    w = t.ereal('w', (R, 1), 0., 2.)
    W0, w0 = t.copy(Wx), t.copy(w)
    if via == 'ssqueeze':
        sc, c = U.scales('log', R)
        with U.par(par):
            Tx, fo = t.mod('ssqueezing').ssqueeze(
                Wx, w, ssq_freqs=f.copy(), flipud=flip, scales=sc)
    else:
        c = np.linspace(.5, 1., R)
        Tx = t.mod('algos').indexed_sum_onfly(Wx, w, f.copy(), t.const(c),
                                              fk.startswith('log'), flip,
                                              parallel=par)
    t.eqs(tuple(Tx.shape), (nf, 1), 'one output row per label')
    t.close(Tx, U.place(t, W0, w0, f, fk, c, flip), 1e-7,
            'each coefficient is in the row of the nearest label')
    t.obs('Tx', Tx)


def wform(t, W, dW, Sf=None):
    """|Im(dW / W)| / 2pi or |f - Im(dS / S) / 2pi|"""
    A, B, C, D = dW.real, dW.imag, W.real, W.imag
    q = t.div(B * C - A * D, (C * C + D * D) * 6.283185307179586)
    return abs(q) if Sf is None else abs(Sf - q)


def one_cfgs(tier):
    out = []
    for c in c01cfgs1(tier):
        out.append(dict(c, nf=c['R']))
    for fk in ('log', 'linear', 'log-piecewise-rev'):
        for flip in (False, True):
            out.append(dict(fk=fk, sk='log', flip=flip, par=not flip, R=3,
                            N=1, nf=5))
    out.append(dict(fk='linear0', sk='stft', flip=True, par=False, R=3, N=1,
                    nf=5))
    return out


@harness(one_cfgs, hints=U.hints)
def onepass(t, fk, sk, flip, par, R, N, nf):
    Wx = t.cplx('Wx', (R, N))
    dWx = t.cplx('dWx', (R, N))
    g = .25
    for v in Wx.ravel():        # magnitude clearly on one side of gamma
        m = v.real ** 2 + v.imag ** 2
        t.assume((m > g * g + 1e-6) | (m < g * g - 1e-6))
    W0, D0 = t.copy(Wx), t.copy(dWx)
    f = U.freqs(fk, nf)
    kw, Sfs = {}, None
    if sk == 'stft':
        sc, c = None, np.full(R, f[1] - f[0])
        Sfs = U.freqs(fk, R)
        kw.update(transform='stft', Sfs=Sfs)
    else:
        sc, c = U.scales(sk, R)
    with U.par(par):
        Tx, fo = t.mod('ssqueezing').ssqueeze(
            Wx, None, ssq_freqs=f.copy(), scales=sc, flipud=flip, dWx=dWx,
            gamma=g, **kw)
    t.eqs(tuple(Tx.shape), (nf, N), 'one output row per label')
    t.close(fo, f[::-1] if flip else f, 1e-12, 'labels in the order of the rows')
    exp = t.np.zeros((nf, N), dtype='complex128')
    for i in range(R):
        v = W0[i, 0]
        keep = v.real ** 2 + v.imag ** 2 > g * g
        w = wform(t, v, D0[i, 0], None if Sfs is None else Sfs[i])
        for k, b in enumerate(U.bins(t, w, f, fk)):
            r = nf - 1 - k if flip else k
            exp[r, 0] = exp[r, 0] + t.ite(b & keep, v * c[i], 0.)
    t.close(Tx, exp, 1e-7, 'each retained coefficient is in the row of the '
            'label nearest to its phase transform')
    t.obs('Tx', Tx)


def e2e_cfgs(tier):
    out = []
    for fk in ('log', 'linear'):
        for flip in (False, True):
            for get_w in (False, True):
                out.append(dict(tr='cwt', fk=fk, flip=flip, get_w=get_w, R=4))
    for flip in (False, True):
        for get_w in (False, True):
            out.append(dict(tr='stft', fk='linear0', flip=flip, get_w=get_w, R=3))
    return out


def e2e_hints(cfg):
    if cfg['tr'] == 'stft' or cfg['fk'] == 'linear':
        return []
    f = .125 * 2 ** (np.arange(4) * 2 / 3)     # maximal range of N=8: 1/N .. 1/2
    out = list(f)
    for e in U.edges(f, 'log'):
        out += [e * (1 - 1e-9), e, e * (1 + 1e-9)]
    return [float(v) for v in out]


@harness(e2e_cfgs, hints=e2e_hints, xval=3)
def api_labels(t, tr, fk, flip, get_w, R):
    """ssq_cwt / ssq_stft around an unconstrained transform (C12, C14 decide the
    transform itself): the returned Tx is the placement of the returned transform
    per the returned labels."""
    N, g = 1, .25
    Wx, dWx = t.cplx('Wx', (R, N)), t.cplx('dWx', (R, N))
    U.apart(t, Wx, g)
    W0, D0 = t.copy(Wx), t.copy(dWx)
    N0 = 8 if tr == 'cwt' else 4
    x = np.arange(N0) * .1
    with U.par(False):
        if tr == 'cwt':
            m = t.mod('_ssq_cwt')
            sc, c = U.scales('log', R)
            W4 = t.np.concatenate([Wx, t.np.zeros((R, N0 - N)) + 0j], axis=1)
            D4 = t.np.concatenate([dWx, t.np.zeros((R, N0 - N)) + 0j], axis=1)
            with U.patched(m, cwt=U.fake_cwt(W4, D4, sc.copy())):
                out = m.ssq_cwt(x, 'gmw', scales=sc, ssq_freqs=fk, flipud=flip,
                                get_w=get_w, gamma=g, maprange='maximal')
            Sf = None
        else:
            m = t.mod('_ssq_stft')
            W4, D4 = Wx, dWx
            with U.patched(m, stft=U.fake_stft(W4, D4)):
                out = m.ssq_stft(x, get_w=get_w, flipud=flip, gamma=g)
            Sf = np.linspace(0, .5, R)
            t.close(out[3], Sf, 1e-9, 'row frequencies run linearly to fs/2')
            c = np.full(R, Sf[1])
    Tx, Wr, fo = out[:3]
    t.close(Wr[:, :N], W0, 1e-9, 'returned transform')
    fo = np.asarray(fo, dtype=float)
    t.eqs((Tx.shape[0], bool(np.all(np.diff(fo if not flip else fo[::-1]) > 0))),
          (len(fo), True), 'labels: one per row, ordered as requested by flipud')
    exp = [[0.] * N for _ in range(len(fo))]
    order = np.argsort(fo)
    kind = 'log' if fk == 'log' else 'linear'
    for i in range(R):
        v = W0[i, 0]
        keep = v.real ** 2 + v.imag ** 2 > g * g
        w = wform(t, v, D0[i, 0], None if Sf is None else Sf[i])
        for k, b in enumerate(U.bins(t, w, fo[order], kind)):
            exp[order[k]][0] = exp[order[k]][0] + t.ite(b & keep, v * c[i], 0.)
    t.close(Tx[:, :N], t.np.array(exp), 1e-6, 'each coefficient is in the row of '
            'the nearest returned label')
    t.obs('Tx', Tx[:, :N])
