# -*- coding: utf-8 -*-
"""C11: STFT framing and overlap-add."""
import numpy as np
from symx.api import harness
from harness import util as U

BOUNDS = ('signals of 1..12 arbitrary samples (1-3 rows), segment length 1..6 (odd and '
          'even), every hop 1..seg_len+1, zero-phase shift on/off, serial and parallel; '
          'overlap-add of 1-5 arbitrary frames with arbitrary windows of length 1..6, '
          'exponents 0..3')
ASSUMPTIONS = []


def buf_cfgs(tier):
    out = []
    for seg in (1, 2, 3, 4, 5) + ((6, 7) if tier != 'quick' else ()):
        for nd in (1, 2):
            for par in (False, True):
                out.append(dict(seg=seg, nd=nd, par=par))
    return out


@harness(buf_cfgs)
def framing(t, seg, nd, par):
    buffer = t.mod('utils.stft_utils').buffer
    for hop in range(1, seg + 2):
        for L in sorted({seg, seg + 1, seg + 2 * hop, seg + 2 * hop + 1,
                         seg + 3 * hop - 1}):
            x = t.real('x%d_%d' % (hop, L), (L,) if nd == 1 else
                       (2 if L % 2 else 3, L))
            x0 = t.copy(x)
            for mod in (False, True):
                with U.par(par):
                    b = buffer(x, seg, seg - hop, mod)
                with U.par(not par):
                    b2 = buffer(x, seg, seg - hop, modulated=mod, parallel=par)
                n = (L - seg) // hop + 1
                tag = 'seg=%d hop=%d L=%d mod=%s' % (seg, hop, L, mod)
                t.eqs(tuple(b.shape), x0.shape[:-1] + (seg, n),
                      'seg_len x n_segs; ' + tag)
                sh = seg // 2 if mod else 0
                e = t.np.stack([t.np.stack([
                    x0[..., h * hop + (m + sh) % seg] for m in range(seg)],
                    axis=-1) for h in range(n)], axis=-1)
                t.close(b, e, 1e-9, 'columns are successive segments; ' + tag)
                t.close(b2, e, 1e-9, 'same with the explicit argument; ' + tag)
            t.close(x, x0, 1e-12, 'input untouched')
    t.obs('b', b)


def oa_cfgs(tier):
    return [dict(n_fft=n, we=we, sgn=s) for n in (1, 2, 3, 4, 5, 6)
            for we in (0, 1, 2, 3) for s in (('pos', 'any') if we < 2
                                             else ('pos',))]


@harness(oa_cfgs)
def overlap_add(t, n_fft, we, sgn):
    su = t.mod('utils.stft_utils')
    rs = np.random.RandomState(n_fft)
    w = rs.uniform(.1, 1, n_fft) if sgn == 'pos' else rs.uniform(-1, 1, n_fft)
    for hop in range(1, n_fft + 2):
        for H, N in ((1, 1), (3, 2 * hop + 1), (3, 3 * hop), (2, None)):
            b = t.real('b%d_%s_%s' % (hop, H, N), (n_fft, H))
            b0 = t.copy(b)
            w_in = t.const(w.copy())
            n = N if N is not None else H * hop + n_fft - 1
            x = su.unbuffer(b, w_in, hop, n_fft, N, win_exp=we)
            tag = 'n_fft=%d hop=%d H=%d N=%s exp=%d' % (n_fft, hop, H, N, we)
            t.eqs(tuple(x.shape), (n + n_fft - 1,), 'length; ' + tag)
            e = [0.] * (n + n_fft - 1)
            for h in range(H):
                for m in range(n_fft):
                    e[h * hop + m] = e[h * hop + m] + b0[m, h] * w[m] ** we
            t.close(x, t.np.array([q + 0. for q in e]), 1e-9,
                    'each frame added at its own offset; ' + tag)
            t.close(w_in, w, 1e-12, 'window untouched')
            t.close(b, b0, 1e-12, 'frames untouched')


@harness(lambda tier: [dict(n_fft=n, we=we) for n in (1, 2, 3, 4, 5)
                       for we in (0, 1, 2)], xtol=1e-6)
def norm(t, n_fft, we):
    su = t.mod('utils.stft_utils')
    w = t.real('w', (n_fft,))
    w0 = t.copy(w)
    for hop in range(1, n_fft + 2):
        for N in (1, hop, hop + 1, 3 * hop, 3 * hop + 1, 3 * hop - 1):
            if N < 1:
                continue
            wn = su.window_norm(w, hop, n_fft, N, we)
            tag = 'n_fft=%d hop=%d N=%d exp=%d' % (n_fft, hop, N, we)
            t.eqs(tuple(wn.shape), (N + n_fft - 1,), 'length; ' + tag)
            e = [0.] * (N + n_fft - 1)
            for h in range((N - 1) // hop + 1):
                for m in range(n_fft):
                    p = w0[m]
                    for _ in range(we):
                        p = p * w0[m]
                    e[h * hop + m] = e[h * hop + m] + p
            t.close(wn, t.np.array([q + 0. for q in e]), 1e-9,
                    'sum of window powers of every frame; ' + tag)
    t.close(w, w0, 1e-12, 'window untouched')
