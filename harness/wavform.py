# -*- coding: utf-8 -*-
"""Defining expressions of the wavelets over symbolic or concrete arguments."""
import numpy as np
from scipy.special import gammaln


def formula_of(t, nm, w, kw):
    """Defining expressions, over symbolic or real `w` (> 0 for GMW)."""
    X = t.np
    if nm == 'morlet':
        mu = kw.get('mu', 13.4)
        cs = (1 + np.exp(-mu ** 2) - 2 * np.exp(-.75 * mu ** 2)) ** -.5
        return (X.exp(-.5 * (w - mu) ** 2) - np.exp(-.5 * mu ** 2) *
                X.exp(-.5 * w ** 2)) * (2 ** .5 * cs * np.pi ** .25)
    if nm == 'cmhat':
        mu, s = kw.get('mu', 1.), kw.get('s', 1.)
        u = w - mu
        v = u ** 2 * X.exp(-s ** 2 * u ** 2 / 2) * (
            2 * (2 / 3) ** .5 * np.pi ** -.25 * s ** 2.5)
        return t.ite(u >= 0, v, 0.)
    if nm == 'hhhat':
        u = w - kw.get('mu', 5.)
        v = u * (1 + u) * X.exp(-.5 * u ** 2) * (4 / 5 ** .5 * np.pi ** -.25)
        return t.ite(u > 0, v, 0.)
    if nm == 'bump':
        mu, s, om = kw.get('mu', 5.), kw.get('s', 1.), kw.get('om', 0.)
        u = (w - mu) / s
        ok = abs(u) < .999
        c = .443993816053287 * s
        e = t.ite(ok, X.exp(t.div(-1., 1 - t.ite(ok, u, 0.) ** 2)) / c, 0.)
        return e * X.exp(w * (2j * np.pi * om)) if om else e
    g, b = kw.get('gamma', 3.), kw.get('beta', 60.)
    k, norm = kw.get('order', 0), kw.get('norm', 'bandpass')
    wc = (b / g) ** (1 / g)
    if kw.get('centered_scale'):
        w = w * wc
    r = (2 * b + 1) / g
    lw = X.log(w)
    wg = w ** int(g) if g == int(g) else X.exp(lw * g)
    if norm == 'bandpass':
        v = X.exp(lw * b - wg + (wc ** g - b * np.log(wc))) * (2 * np.exp(
            .5 * (gammaln(r) + gammaln(k + 1) - gammaln(k + r))))
    else:
        v = (X.exp(lw * b - wg) if k else w ** int(b) * X.exp(-wg)) * np.exp(
            .5 * (np.log(2 * np.pi * g) + r * np.log(2) + gammaln(k + 1) -
                  gammaln(k + r)))
    x = wg * 2
    a0, a1 = x * 0 + 1., r - x
    for n in range(1, k):
        a0, a1 = a1, ((2 * n + r - x) * a1 - (n + r - 1) * a0) / (n + 1)
    return v * (a1 if k else a0)
