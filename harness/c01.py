# -*- coding: utf-8 -*-
"""C01: synchrosqueezing conserves weighted mass per time column."""
import numpy as np
from symx.api import harness
from harness import util as U

BOUNDS = ('3-5 rows x 1-2 columns; |Re|,|Im| of coefficients <= 1; phase transform in '
          '[0, 2] or +inf; label spacings fixed per layout; weights of log (nv=4), '
          'linear and log-piecewise scales')
ASSUMPTIONS = ['w >= 0 (documented precondition)']

def cfgs(tier):
    out = []
    for fk in ('log', 'linear', 'log-piecewise', 'log-piecewise-rev'):
        for flip in (False, True):
            for par in (False, True):
                sks = ('log', 'linear', 'log-piecewise')
                if tier == 'quick':
                    k = (flip * 2 + par) % 3
                    sks = (sks[k], 'linear') if k != 1 else sks[1:]
                for sk in sks:
                    for R in ((4,) if tier == 'quick' else (4, 5, 6)):
                        out.append(dict(fk=fk, sk=sk, flip=flip, par=par,
                                        R=R, N=2))
    for flip in (False, True):
        for par in (False, True):
            out.append(dict(fk='linear0', sk='stft', flip=flip, par=par, R=3,
                            N=2))
    return out


def run(t, Wx, w, fk, sk, flip, par, R, **kw):
    ssqueeze = t.mod('ssqueezing').ssqueeze
    f = U.freqs(fk, R)
    if sk == 'stft':
        sc, c = None, np.full(R, f[1] - f[0])
        kw.update(transform='stft')
        if w is None:
            kw.update(Sfs=f)
    else:
        sc, c = U.scales(sk, R)
    with U.par(par):
        Tx, fo = ssqueeze(Wx, w, ssq_freqs=f.copy(), scales=sc, flipud=flip,
                          **kw)
    return Tx, fo, f, c


@harness(cfgs, hints=U.hints)
def twostep(t, fk, sk, flip, par, R, N):
    Wx = t.cplx('Wx', (R, N))
    w = t.ereal('w', (R, N), 0., 2.)
    W0, w0 = t.copy(Wx), t.copy(w)
    Tx, fo, f, c = run(t, Wx, w, fk, sk, flip, par, R)
    t.eqs(tuple(Tx.shape), (R, N), 'output shape')
    for j in range(N):
        tot, exp = 0., 0.
        for k in range(R):
            tot = tot + Tx[k, j]
        for i in range(R):
            exp = exp + t.ite(t.np.isinf(w0[i, j]), 0., W0[i, j] * c[i])
        t.close(tot, exp, 1e-7, 'column sum equals weighted sum of retained '
                'coefficients of that column')
    t.obs('Tx', Tx)


def cfgs1(tier):
    out = []
    for fk in ('log', 'linear', 'log-piecewise'):
        for flip in (False, True):
            for par in (False, True):
                out.append(dict(fk=fk, sk='linear' if flip else 'log', flip=flip,
                                par=par, R=4 if tier == 'quick' else 5, N=1))
    for flip in (False, True):
        for par in (False, True):
            out.append(dict(fk='linear0', sk='stft', flip=flip, par=par, R=3,
                            N=1))
    return out


@harness(cfgs1, hints=U.hints)
def onepass(t, fk, sk, flip, par, R, N):
    Wx = t.cplx('Wx', (R, N))
    dWx = t.cplx('dWx', (R, N))
    g = .25
    for v in Wx.ravel():        # magnitude clearly on one side of gamma
        m = v.real ** 2 + v.imag ** 2
        t.assume((m > g * g + 1e-6) | (m < g * g - 1e-6))
    W0 = t.copy(Wx)
    Tx, fo, f, c = run(t, Wx, None, fk, sk, flip, par, R, dWx=dWx, gamma=g)
    for j in range(N):
        tot, exp = 0., 0.
        for k in range(R):
            tot = tot + Tx[k, j]
        for i in range(R):
            v = W0[i, j]
            exp = exp + t.ite(v.real ** 2 + v.imag ** 2 < g * g, 0., v * c[i])
        t.close(tot, exp, 1e-7, 'column sum equals weighted sum of coefficients '
                'with magnitude above gamma')
    t.obs('Tx', Tx)
