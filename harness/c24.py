# -*- coding: utf-8 -*-
"""C24: generalized Morse wavelet formulas agree with their definitions."""
import math
import numpy as np
from scipy.special import gammaln
from symx.api import harness
from harness import util as U
from harness.wavform import formula_of

BOUNDS = ('any frequency argument in [-4, 4], any scale in [.2, 8], any centre frequency '
          'in [.3, 3], lengths 1-12, any Laguerre argument in [-20, 20], any moments; '
          '(gamma, beta) from 14 pairs including beta = 0 and non-integers, orders 0-4, '
          'both norms, both scalings')
ASSUMPTIONS = ['gamma functions: concrete values', 'exp, log, powers as uninterpreted '
               'monotone functions; log(w) <= log(c) + (w - c)/c for the peak bound']
GB = ((3., 60.), (3., 5.), (2., 4.), (1., 2.), (4., 9.), (2.5, 4.), (3., 7.5),
      (1.5, 3.), (6., 2.), (3., .5), (2., .25))


def lg(x):
    return float(gammaln(x))


def wc_of(g, b):
    return (math.log(2) / 2) ** (1 / g) if b == 0 else (b / g) ** (1 / g)


def value(t, w, g, b, k, norm, logs=False):
    """Defining expression at w >= 0 (0 at 0 unless beta == 0)."""
    if b == 0:
        wg = w ** int(g) if g == int(g) else t.np.exp(t.np.log(w) * g)
        return 2. * t.np.exp(-wg)
    if norm == 'energy' and (logs or b != int(b)) and k == 0:
        wg = w ** int(g) if g == int(g) else t.np.exp(t.np.log(w) * g)
        r = (2 * b + 1) / g
        lb = t.np.log(w) * b
        return (t.np.exp(lb - wg) if logs else (
            t.np.sqrt(w) if b == .5 else t.np.exp(lb)) * t.np.exp(-wg)) * math.exp(
            .5 * (math.log(2 * math.pi * g) + r * math.log(2) - lg(r)))
    return formula_of(t, 'gmw', w, dict(gamma=g, beta=b, order=k, norm=norm))


def peak_cfgs(tier):
    return [dict(g=g, b=b, rng=r) for g, b in GB if g == int(g) and b <= 9
            for r in ('lo', 'hi')]


@harness(peak_cfgs, xtol=1e-6)
def peak(t, g, b, rng):
    """Bandpass norm: the value is at most 2, reached at the peak frequency."""
    m = t.mod('_gmw')
    wc = wc_of(g, b)
    t.close(m.morsefreq(g, b), wc, 1e-12, 'peak frequency')
    f = m.gmw(g, b, norm='bandpass', order=0, dtype='float64')
    t.close(np.asarray(f(np.array([wc])))[0], 2., 1e-9, 'two at the peak')
    w = t.real('w', (1,), *((wc * .05, wc) if rng == 'lo' else (wc, wc * 3)))
    v = f(w)[0]
    # ln(w) lies below its tangent at wc
    lw = t.np.log(w[0])
    t.assume(lw <= (w[0] - wc) * (1 / wc) + math.log(wc) + 1e-13)
    z = lw * b - w[0] ** int(g) + (wc ** g - b * math.log(wc))
    t.true(z <= 1e-9, 'exponent at most zero')
    t.close(v, t.np.exp(z) * 2., 1e-7, 'two times exp(exponent)')


def mw_cfgs(tier):
    out, i = [], 0
    for g, b in GB + ((3., 0.), (2., 0.), (1.5, 0.)):
        if b > 9:
            continue
        for norm in ('bandpass', 'energy'):
            if b == 0 and norm == 'energy':
                continue
            for K in ((1, 2, 4) if b else (1,)):
                for sg in (1, -1):
                    i += 1
                    if tier == 'quick' and K > 1 and i % 3 == 0:
                        continue
                    out.append(dict(g=g, b=b, norm=norm, K=K, sg=sg, low=False,
                                    N=(6, 7, 4, 5, 8)[i % 5]))
                    if b <= 4 and K == 1:
                        out.append(dict(g=g, b=b, norm=norm, K=K, sg=sg, low=True,
                                        N=(4, 5, 6)[i % 3]))
    return out


@harness(mw_cfgs, xtol=1e-5, budget=120)
def morsewave(t, g, b, norm, K, sg, low, N):
    """morsewave is the sampled defining expression, mirrored for negative
    frequencies."""
    m = t.mod('_gmw')
    f = t.real('f', (), *((.3, 1.) if low else (1., 3.)))
    f2 = .9
    psih, _ = m.morsewave(N, [f * sg, -f2], gamma=g, beta=b, K=K, norm=norm)
    psih = psih.reshape((N, 2, K))
    fo = wc_of(g, b)
    for n, (v, s) in enumerate(((f, sg), (f2, -1))):
        for k in range(K):
            e = []
            for j in range(N):
                if j > N // 2 or (j == 0 and b):
                    e.append(0.)
                    continue
                fact = v / fo
                w = t.div(2 * math.pi * (j / N), fact)
                q = value(t, w, g, b, k, norm, True) if j else 1.
                if norm == 'energy':
                    q = q * t.np.sqrt(t.div(1., fact))
                e.append(q)
            d = e if s > 0 else [e[-j % N] for j in range(N)]
            for j in range(N):
                t.close(psih[j, n, k], d[j], 1e-6, 'defining expression (order %d)' % k)
    t.obs('psih', psih)


@harness(lambda tier: [dict(N=n, K=k, norm=nm) for n in range(2, 11) for k in (1, 3)
                       for nm in ('bandpass', 'energy')])
def centred(t, N, K, norm):
    """Time-domain wavelets are centred inverse DFTs of arbitrary spectra."""
    m = t.mod('_gmw')
    X = t.real('X', (N, 1, K), -3., 3.)
    Y = t.real('Y', (N,), -3., 3.)
    with U.patched(m, _morsewave_first_family=lambda *a, **k: t.copy(X)):
        f, x = m.morsewave(N, [1., -1.], K=K, norm=norm)
    f, x = f.reshape((N, 2, K)), x.reshape((N, 2, K))
    h = N // 2 + 1

    def fake(*a, **k):
        return lambda w: Y[:h]
    with U.patched(m, gmw=fake):
        g, z = m.compute_gmw(N, 4., time=True, norm=norm, norm_scale=norm == 'energy')
        g1 = m.compute_gmw(N, 4., time=False, norm=norm, norm_scale=False)
    mul = 2. if norm == 'energy' else 1.
    for j in range(N):
        t.close(g[j], Y[j] * mul if j < h else 0., 1e-9, 'spectrum, zero where negative')
        t.close(g1[j], Y[j] if j < h else 0., 1e-9, 'spectrum, zero where negative')
        for k in range(K):
            t.close(f[j, 0, k], X[j, 0, k], 1e-9, 'spectrum')
            t.close(f[j, 1, k], X[-j % N, 0, k], 1e-9, 'mirrored spectrum')
    for q in range(N):
        E = [complex((.5 if N % 2 == 0 and j == N // 2 else 1.) * (-1) ** j *
                     np.exp(2j * np.pi * j * q / N)) / N for j in range(N)]
        a = 0.
        for j in range(h):
            a = a + Y[j] * (E[j] * mul)
        t.close(z[q], a, 1e-9, 'centred inverse DFT')
        for k in range(K):
            a = 0.
            for j in range(N):
                a = a + X[j, 0, k] * E[j]
            t.close(x[q, 0, k], a, 1e-9, 'centred inverse DFT')
            t.close(x[q, 1, k], a.conjugate(), 1e-9, 'its conjugate')


def cg_cfgs(tier):
    out, i = [], 0
    for g, b in GB:
        if b > 9:
            continue
        for norm in ('bandpass', 'energy'):
            for k in (0, 1, 3):
                for cs in (False, True):
                    i += 1
                    if tier == 'quick' and i % 2:
                        continue
                    out.append(dict(g=g, b=b, norm=norm, k=k, cs=cs,
                                    N=(6, 7, 8, 1, 2, 5)[i % 6], ns=bool(i % 3)))
    return out


@harness(cg_cfgs, xtol=1e-5)
def compute_gmw(t, g, b, norm, k, cs, N, ns):
    """compute_gmw is the defining expression sampled at scale * xi."""
    m = t.mod('_gmw')
    lo, hi = ((.2, 3.) if k == 0 else (.2, 1.))
    s = t.real('s', (), lo, hi)
    X = m.compute_gmw(N, s, gamma=g, beta=b, norm=norm, order=k,
                         centered_scale=cs, norm_scale=ns, dtype='float64')
    wc = wc_of(g, b)
    e = [0.] * N
    for j in range(1, N // 2 + 1):
        w = s * (2 * math.pi * j / N) * (wc if cs else 1.)
        e[j] = value(t, w, g, b, k, norm)
        if norm == 'energy' and ns:
            e[j] = e[j] * t.np.sqrt(s * wc if cs else s)
    t.eqs(tuple(X.shape), (N,), 'length')
    for j in range(N):
        t.close(X[j], e[j], 1e-6, 'defining expression')
    t.obs('X', X)


@harness(lambda tier: [dict(k=k, c=c) for k in range(0, 6 if tier == 'quick' else 8)
                       for c in (.5, 2.6667, 0., 39.333)], xtol=1e-6)
def laguerre(t, k, c):
    """Laguerre polynomials satisfy their three-term recurrence."""
    m = t.mod('_gmw')
    x = t.real('x', (2,), -20., 20.)
    x0 = t.copy(x)
    got = m.laguerre(x, k, c)
    t.close(x, x0, 0., 'argument untouched')
    for i in range(2):
        a0, a1 = 1., 1 + c - x[i]
        for n in range(1, k):
            a0, a1 = a1, ((2 * n + 1 + c - x[i]) * a1 - (n + c) * a0) * (1. / (n + 1))
        # compare on a common scale
        s = max(1., sum(math.exp(lg(k + c + 1) - lg(c + j + 1) - lg(k - j + 1) -
                                 lg(j + 1)) * 20. ** j for j in range(k + 1)))
        t.close(got[i] * (1 / s), (a1 if k else a0 + 0 * x[i]) * (1 / s), 1e-9,
                'generalised Laguerre polynomial')


@harness(lambda tier: [dict(n=n, m0=m) for n in (1, 2, 3, 4, 5) for m in (1., 2.5)],
         xtol=1e-5)
def cumulants(t, n, m0):
    """Cumulants: exp(K) = M as power series, i.e. M' = K' M coefficientwise."""
    m = t.mod('_gmw')
    mom = t.real('m', (n,), -2., 2.)
    mom[0] = m0
    K = m._moments_to_cumulants(mom)
    t.eqs(tuple(K.shape), (n,), 'one cumulant per moment')
    t.close(K[0], math.log(m0), 1e-12, 'zeroth cumulant')
    if n > 1:
        for j in range(1, n):
            s = 0.
            for i in range(1, j + 1):
                s = s + K[i] * mom[j - i] * math.comb(j - 1, i - 1)
            t.close(s, mom[j], 1e-6, 'moment %d from the cumulants' % j)


@harness(lambda tier: [dict(i=i) for i in range(len(GB))], xtol=1e-6)
def identities(t, i):
    """Closed forms of the frequencies, amplitudes and moments (given parameters)."""
    m = t.mod('_gmw')
    g, b = GB[i]
    r = (2 * b + 1) / g
    wm, we, wi, cwi = m.morsefreq(g, b, n_out=4)
    wc = wc_of(g, b)
    t.close(wm, wc, 1e-12, 'peak frequency')
    t.close(m.morsefreq(g, b, n_out=1), wm, 0., 'same for any number of outputs')
    t.close(np.array(m.morsefreq(g, b, n_out=3)), np.array([wm, we, wi]), 0.,
            'same for any number of outputs')
    t.close(np.array(m.morsefreq(g, b, n_out=2)), np.array([wm, we]), 0.,
            'same for any number of outputs')
    # amplitude: 2 at the peak; unit energy
    A = m.morseafun(g, b, norm='bandpass')
    t.close(math.log(A), math.log(2) - b * math.log(wc) + wc ** g, 1e-9, 'amplitude')
    for k in (1, 2, 3, 5):
        a = m.morseafun(g, b, k=k, norm='energy')
        # integral of (w^b exp(-w^g) L_{k-1}(2 w^g))^2 = Gamma(k+r-1)/Gamma(k)/(g 2^r)
        le = lg(k + r - 1) - lg(k) - math.log(g) - r * math.log(2) - math.log(2 * math.pi)
        t.close(2 * math.log(a) + le, 0., 1e-9, 'unit energy, order %d' % (k - 1))

    def M(p, c=1.):     # ln of (1/2pi) int w^p w^(cb) exp(-c w^g)
        q = (p + c * b + 1) / g
        return lg(q) - q * math.log(c) - math.log(g) - math.log(2 * math.pi)
    mom, en = [], []
    for p in range(4):
        v = m._morsemom(p, g, b, n_out=4)
        t.close(m._morsemom(p, g, b, n_out=1), v[0], 0., 'same for any number of outputs')
        t.close(np.array(m._morsemom(p, g, b, n_out=2)), np.array(v[:2]), 0.,
                'same for any number of outputs')
        t.close(np.array(m._morsemom(p, g, b, n_out=3)), np.array(v[:3]), 0.,
                'same for any number of outputs')
        t.close(math.log(v[0]), math.log(A) + M(p), 1e-8, 'moment %d' % p)
        t.close(math.log(v[1]), 2 * math.log(A) + M(p, 2.), 1e-8, 'energy moment %d' % p)
        mom.append(v[0])
        en.append(v[1])
        for seq, x, nm in ((mom, v[2], 'cumulant'), (en, v[3], 'energy cumulant')):
            c = [q / seq[0] for q in seq]
            e = (math.log(seq[0]) if p == 0 else c[1] if p == 1 else
                 c[2] - c[1] ** 2 if p == 2 else
                 c[3] - 3 * c[2] * c[1] + 2 * c[1] ** 3)
            t.close(x, e, 1e-7 * max(1., abs(c[min(p, 1)]) ** p), nm + ' %d' % p)
    t.close(we, en[1] / en[0], 1e-9 * we, 'energy frequency')
    t.close(wi, mom[1] / mom[0], 1e-9 * wi, 'instantaneous frequency')
    c = [q / mom[0] for q in mom]
    k2, k3 = c[2] - c[1] ** 2, c[3] - 3 * c[2] * c[1] + 2 * c[1] ** 3
    t.close(cwi, -k3 / k2 ** 1.5, 1e-6 * max(1, c[1] ** 3 / k2 ** 1.5), 'curvature')


@harness(lambda tier: [dict(g=g) for g in (1., 1.5, 2., 3., 6.)], xtol=1e-6)
def zero_beta(t, g):
    """beta == 0: the half-power point, and bandpass amplitude 2."""
    m = t.mod('_gmw')
    wm = m.morsefreq(g, 0)
    t.close(math.exp(-2 * wm ** g), .5, 1e-12, 'power decays to one half')
    t.close(m.morseafun(g, 0, norm='bandpass'), 2., 0., 'amplitude')


@harness(lambda tier: [dict(n=n) for n in range(0, 11)])
def binomial(t, n):
    a = t.mod('algos')
    k = t.integer('k', 0, n)
    t.close(a.nCk(n, k), float(math.comb(n, k)), 1e-9, 'binomial coefficient')


@harness(lambda tier: [dict(fn=f, par=p) for f in (
    'gmw', 'compute_gmw', 'morsewave') for p in ('gamma', 'beta', 'order', 'norm', 'scale')
    if not (p == 'order' and f == 'morsewave' or p == 'scale' and f != 'compute_gmw')])
def rejected(t, fn, par):
    """Invalid parameters are rejected."""
    m = t.mod('_gmw')
    kw = dict(gamma=3., beta=5.)
    v = {'gamma': lambda: t.real('v', (), -10., 0.),
         'beta': lambda: t.real('v', (), -10., -1e-9),
         'scale': lambda: t.real('v', (), -10., 0.),
         'order': lambda: t.integer('v', -5, -1),
         'norm': lambda: 'bandpas'}[par]()
    sc = v if par == 'scale' else 2.
    if par != 'scale':
        kw[par] = v

    def run(**kw):
        if fn == 'gmw':
            return m.gmw(**kw)
        if fn == 'compute_gmw':
            return m.compute_gmw(4, sc, **kw)
        return m.morsewave(4, 1., **kw)
    t.raises(Exception, lambda: run(**kw), 'invalid %s rejected' % par)
    sc = 2.
    run(gamma=3., beta=5.)
