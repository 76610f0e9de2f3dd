# -*- coding: utf-8 -*-
"""C10: signal padding."""
import numpy as np
from symx.api import harness
from harness.util import ext

BOUNDS = ('signal length N 1..9 quick / 1..17 thorough, every padtype, padlength '
          'None and N..2N (N-1 extra for reflect), 1D and 2D (1-3 rows); samples '
          'symbolic in [-1, 1]; p2up for every integer N up to 4096 (symbolic '
          'within each octave)')
PADS = ('zero', 'reflect', 'symmetric', 'replicate', 'wrap')


def cfgs(tier):
    out = []
    Ns = range(1, 10) if tier == 'quick' else range(1, 18)
    for N in Ns:
        for padtype in PADS:
            lens = {None, N, N + 1, N + 2, 2 * N - 1, 2 * N, N + (N + 1) // 2}
            if tier != 'quick':
                lens |= set(range(N, 2 * N + 1)) | {3 * N, 3 * N + 1}
            else:
                lens |= {3 * N + 1} if N in (3, 4) else set()
            lens.discard(2 * N - 1 if 2 * N - 1 < N else -1)
            for L in sorted(lens, key=lambda q: -1 if q is None else q):
                out.append((N, padtype, L))
    groups = {}
    for N, p, L in out:
        groups.setdefault((N, p), []).append(L)
    return [dict(N=N, padtype=p, lens=ls, nd=nd)
            for (N, p), ls in groups.items() for nd in (1, 2)
            if nd == 1 or N in (1, 2, 3, 4, 7, 8)]


@harness(cfgs, xval=6)
def pad(t, N, padtype, lens, nd):
    padsignal = t.mod('utils.common').padsignal
    shape = (N,) if nd == 1 else (1 + N % 3, N)
    x = t.real('x', shape)
    x0 = t.copy(x)
    for L in lens:
        kw = {} if L is None else dict(padlength=L)
        xp, n_up, n1, n2 = padsignal(x, padtype, get_params=True, **kw)
        tag = '%s N=%s padlength=%s' % (padtype, N, L)
        if L is None:
            p2 = 1
            while p2 < N:
                p2 *= 2
            t.eqs(n_up > 0 and (n_up & (n_up - 1)) == 0, True,
                  'padded length is a power of two; ' + tag)
            t.eqs(n_up >= N, True, 'padded length >= N; ' + tag)
        else:
            t.eqs(int(n_up), L, 'n_up == padlength; ' + tag)
        t.eqs(tuple(xp.shape), shape[:-1] + (int(n_up),),
              'padded length is the one reported; ' + tag)
        t.eqs(int(n1) + N + int(n2), int(n_up), 'n1 + N + n2 == n_up; ' + tag)
        t.eqs(int(n1) - int(n2) in (0, 1), True, 'n1 - n2 in {0, 1}; ' + tag)
        exp = t.np.stack([ext(x0, i - int(n1), N, padtype, t)
                          for i in range(int(n_up))], axis=-1)
        t.close(xp, exp, 1e-9, 'padded signal is the %s extension; ' % padtype +
                tag)
        t.close(x, x0, 1e-9, 'input not modified; ' + tag)
        xq = padsignal(x, padtype, **kw)
        t.close(xq, xp, 1e-9, 'get_params does not change the output; ' + tag)
        if L is None:
            t.obs('xp', xp)


@harness(lambda tier: [dict(lo=lo, hi=hi) for lo, hi in
                       ((1, 40), (41, 300), (301, 4096))] +
         ([dict(lo=4097, hi=1 << 20)] if tier != 'quick' else []), xval=0,
         tie=0, max_paths=20000, hints=[2 ** (k + .5) for k in range(0, 22)] +
         [float(2 ** k) for k in range(0, 22)])
def p2(t, lo, hi):
    """p2up for every integer length."""
    p2up = t.mod('utils.common').p2up
    if t.sym:
        n = t.integer('n', lo, hi)
    else:
        n = t.integer('n', lo, hi)
    up, n1, n2 = p2up(n)
    if t.sym:
        from symx import core
        t.true(up == n + n1 + n2, 'n1 + n + n2 == up')
        t.true((n1 - n2 == 0) | (n1 - n2 == 1), 'n1 - n2 in {0, 1}')
        t.true(up >= n, 'up >= n')
        ok = False
        for k in range(0, 24):
            ok = ok | (up == 2 ** k)
        t.true(ok, 'power of two')
    else:
        t.eqs(up, n + n1 + n2, 'n1 + n + n2 == up')
        t.eqs(n1 - n2 in (0, 1), True, 'n1 - n2 in {0, 1}')
        t.eqs(up >= n, True, 'up >= n')
        t.eqs(up & (up - 1) == 0 and up > 0, True, 'power of two')
