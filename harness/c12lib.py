# -*- coding: utf-8 -*-
"""STFT oracles (definition of the transform)."""
import numpy as np
from harness.util import ext


def win_of(window, n):
    import scipy.signal as sig
    if window is None:
        return sig.windows.dpss(n, max(4, n // 8), sym=False)
    return sig.get_window(window, n, fftbins=True)


def padded(w, n_fft):
    p = n_fft - len(w)
    return np.hstack([np.zeros(p // 2), w, np.zeros(p - p // 2)])


def diff_window(w):
    n = len(w)
    k = np.arange(n)
    k = np.where(k <= n // 2, k, k - n)
    xi = 2 * np.pi * k / n
    if n % 2 == 0:
        xi[n // 2] = 0
    F = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)
    return (np.conj(F) @ (1j * xi * (F @ w))).real / n


def diff_matrix(n):
    """dw = D @ w"""
    return np.stack([diff_window(e) for e in np.eye(n)], axis=1)


def stft_def(t, x, w, hop, padtype, modulated):
    n_fft = len(w)
    N = x.shape[-1]
    H = (N - 1) // hop + 1
    c = n_fft // 2
    cols = []
    for h in range(H):
        rows = []
        for k in range(n_fft // 2 + 1):
            s = 0.
            for m in range(n_fft):
                ph = (m - c) if modulated else m
                s = s + ext(x, h * hop + m - c, N, padtype, t) * (
                    w[m] * np.exp(-2j * np.pi * k * ph / n_fft))
            rows.append(s)
        cols.append(t.np.stack(rows, axis=-1))
    return t.np.stack(cols, axis=-1)
