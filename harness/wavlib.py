# -*- coding: utf-8 -*-
"""Wavelets written from their defining formulas (numpy, float64)."""
import numpy as np
from scipy.special import gammaln


def morlet(w, mu=13.4):
    cs = (1 + np.exp(-mu ** 2) - 2 * np.exp(-.75 * mu ** 2)) ** -.5
    return np.sqrt(2) * cs * np.pi ** .25 * (
        np.exp(-.5 * (w - mu) ** 2) - np.exp(-.5 * mu ** 2) * np.exp(-.5 * w ** 2))


def bump(w, mu=5., s=1., om=0.):
    u = (w - mu) / s
    ok = np.abs(u) < .999
    g = np.exp(-1 / (1 - np.where(ok, u, 0.) ** 2)) * ok / s / .443993816053287
    g = g * np.exp(2j * np.pi * om * w)
    return g.real if om == 0 else g


def cmhat(w, mu=1., s=1.):
    u = w - mu
    return (2 * np.sqrt(2 / 3) * np.pi ** -.25 * s ** 2.5 * u ** 2 *
            np.exp(-s ** 2 * u ** 2 / 2) * (u >= 0))


def hhhat(w, mu=5.):
    u = w - mu
    return (2 / np.sqrt(5) * np.pi ** -.25 * u * (1 + u) * np.exp(-u ** 2 / 2) *
            (1 + np.sign(u)))


def lag(x, k, c):
    """Generalised Laguerre polynomial by its three-term recurrence."""
    a, b = np.ones_like(x), 1 + c - x
    if k == 0:
        return a
    for n in range(1, k):
        a, b = b, ((2 * n + 1 + c - x) * b - (n + c) * a) / (n + 1)
    return b


def gmw(w, gamma=3., beta=60., norm='bandpass', order=0, centered_scale=False):
    k = order
    wc = (beta / gamma) ** (1 / gamma)
    w = np.asarray(w, dtype=float)
    if centered_scale:
        w = w * wc
    r = (2 * beta + 1) / gamma
    pos = w > 0
    u = np.where(pos, w, 1.)
    if norm == 'bandpass':
        out = 2 * np.exp(beta * np.log(u / wc) + wc ** gamma - u ** gamma)
        out = out * np.exp(.5 * (gammaln(r) + gammaln(k + 1) - gammaln(k + r)))
    else:
        out = np.exp(beta * np.log(u) - u ** gamma + .5 * (
            np.log(2 * np.pi * gamma) + r * np.log(2) + gammaln(k + 1) -
            gammaln(k + r)))
    return out * lag(2 * u ** gamma, k, r - 1) * pos


FNS = dict(morlet=morlet, bump=bump, cmhat=cmhat, hhhat=hhhat, gmw=gmw)


def dft_freqs(N):
    k = np.arange(N)
    return 2 * np.pi * np.where(k <= N // 2, k, k - N) / N


def sample(name, scale, N, nohalf=True, **cfg):
    """Wavelet at scale(s) x DFT frequencies, (n_scales x N)."""
    s = np.atleast_1d(np.asarray(scale, dtype=float)).reshape(-1, 1)
    p = FNS[name](s * dft_freqs(N), **cfg)
    if not nohalf and N % 2 == 0:
        p = p.copy()
        p[:, N // 2] = p[:, N // 2] / 2
    return p
