# -*- coding: utf-8 -*-
"""C17: wavelet sampling and caching never depend on history."""
import itertools
import numpy as np
from symx.api import harness
from harness import util as U
from harness import wavlib
from harness.wavform import formula_of

BOUNDS = ('defining formulas of all five wavelets at arbitrary arguments in [-4, 4] '
          '(GMW orders 0-3, both norms), serial and parallel variants; custom wavelets at '
          'arbitrary scales in [.1, 8], lengths 1-12; all histories of 2-3 operations '
          '(cached/uncached sampling, change of N) from a set of 7, with arbitrary scales')
ASSUMPTIONS = ['scales of two requests either equal or more than 0.1 % apart (the cache '
               'compares with numpy.allclose)',
               'exp, log and powers as uninterpreted monotone functions']

F = {
    'gmw': [dict(), dict(gamma=2., beta=3.), dict(gamma=3., beta=8., centered_scale=True),
            dict(gamma=3., beta=5., norm='energy'), dict(gamma=2.5, beta=4.),
            dict(gamma=3., beta=5., order=1), dict(gamma=3., beta=5., order=2),
            dict(gamma=2., beta=4., order=1, norm='energy'),
            dict(gamma=3., beta=6., order=3, norm='energy', centered_scale=True),
            dict(gamma=3., beta=6., order=2, centered_scale=True)],
    'morlet': [dict(), dict(mu=5.), dict(mu=2.5)],
    'bump': [dict(), dict(mu=1., s=1.2), dict(mu=1.5, s=2., om=.3)],
    'cmhat': [dict(), dict(mu=.5, s=1.5)],
    'hhhat': [dict(), dict(mu=1.)],
}


def fm_cfgs(tier):
    out = []
    for nm, cs in F.items():
        for i in range(len(cs)):
            for rng in (('pos', 'neg', 'zero', 'low') if nm == 'gmw' else
                        ('below', 'at', 'above', 'zero')):
                if nm == 'gmw' and rng == 'low' and not cs[i].get('order'):
                    continue
                for par in (0, 1):
                    out.append(dict(nm=nm, i=i, rng=rng, par=par))
    return out


@harness(fm_cfgs, xtol=1e-6)
def formula(t, nm, i, rng, par):
    """Wavelet(w) is the defining expression of the named wavelet."""
    kw = F[nm][i]
    m = t.mod('wavelets')
    mu = {'cmhat': 1., 'morlet': 13.4}.get(nm, 5.)
    mu, s = kw.get('mu', mu), kw.get('s', 1.)
    cr = {'pos': (.05, 4. if not kw.get('order') else 1.4), 'neg': (-4., -.05),
          'zero': (0., 0.), 'low': (1.3, 2.2), 'below': (-3., mu - (.05 if nm != 'bump' else 1.01 * s)),
          'above': (mu + (.05 if nm != 'bump' else 1.01 * s), mu + 4.),
          'at': (mu - .97 * s, mu + .97 * s) if nm in ('bump', 'morlet') else (mu, mu)}[rng]
    w = t.real('w', (2,), *cr)
    with U.par(par):
        wav = m.Wavelet((nm, dict(kw, dtype='float64')))
        p = wav(w, imag_th=None)
        q = wav(w)
    t.eqs(tuple(p.shape), (2,), 'one value per argument')
    for j in range(2):
        if nm == 'gmw' and rng in ('neg', 'zero'):
            t.close(p[j], 0., 1e-12, 'zero for non-positive frequency')
            continue
        e = formula_of(t, nm, w[j], kw)
        t.close(p[j], e, 1e-7, 'defining expression')
        t.close(q[j], e, 1e-7, 'defining expression')
    t.obs('p', p)


def custom(w):
    return w * w / (1 + w ** 4) * (w > 0)


def freqs_of(N):
    return wavlib.dft_freqs(N)


def cust_at(t, s, k, N, nohalf):
    w = s * float(freqs_of(N)[k])
    if freqs_of(N)[k] <= 0:
        return 0.
    v = t.div(w * w, 1 + w ** 4)
    return v / 2. if (not nohalf and N % 2 == 0 and k == N // 2) else v


def smp_cfgs(tier):
    out = []
    for N in range(1, 13 if tier == 'thorough' else 10):
        for nh in (True, False):
            for how in ('scalar', '1d', 'col', 'none', 'len1'):
                for api in ('call', 'Psih', 'psifn'):
                    if api == 'Psih' and how in ('scalar', 'none'):
                        continue
                    if api == 'psifn' and (nh or N < 2):
                        continue
                    if (N + len(how) + nh) % 2 and tier == 'quick' and N > 5:
                        continue
                    out.append(dict(N=N, nh=nh, how=how, api=api))
    return out


@harness(smp_cfgs, xtol=1e-5)
def sampling(t, N, nh, how, api):
    """psih[i, k] = f(scale_i * 2 pi k/N), Nyquist halved on request; psi its IDFT."""
    m = t.mod('wavelets')
    n = {'scalar': 1, '1d': 2, 'col': 2, 'none': 1, 'len1': 1}[how]
    s = t.real('s', (n,), .1, 8.)
    arg = {'scalar': s[0], '1d': s, 'col': s.reshape(-1, 1), 'none': None,
           'len1': s}[how]
    if how == 'none':
        s = np.ones(1)
    own = (N + n) % 2 == 0          # N given at construction or per call
    with U.env():
        wav = m.Wavelet(custom, N=N if own else N + 3)
        kw = {} if own else dict(N=N)
        if api == 'call':
            p = wav(scale=arg, nohalf=nh, **kw)
        elif api == 'Psih':
            p = wav.Psih(scale=arg, nohalf=nh, **kw)
        else:
            p = wav.psifn(scale=arg, **kw)
    p = p.reshape((n, N)) if how in ('scalar', 'none', 'len1') else p
    t.eqs(tuple(p.shape), (n, N), 'one row per scale, one column per frequency')
    for i in range(n):
        e = [cust_at(t, s[i], k, N, nh) for k in range(N)]
        if api == 'psifn':
            for q in range(N):
                v = 0.
                for k in range(N):
                    v = v + e[k] * complex((-1) ** k * np.exp(2j * np.pi * k * q / N)) / N
                t.close(p[i, q], v, 1e-5, 'time-domain wavelet, centred')
        else:
            for k in range(N):
                t.close(p[i, k], e[k], 1e-5, 'f(scale * angular DFT frequency)')
    if how not in ('scalar', 'none'):
        t.close(arg.ravel(), s.ravel(), 0., 'scales untouched')
    t.obs('p', p)


OPS = ('PA5', 'PA4', 'PA4h', 'PB5', 'PC5', 'N6', 'XA4h', 'PA0', 'GET', 'MUT')


def hist_cfgs(tier):
    out = []
    L = 3 if tier == 'thorough' else 2
    for r in range(1, L + 1):
        for seq in itertools.product(OPS, repeat=r):
            if seq[-1] in ('N6', 'MUT') or seq[0] in ('GET', 'MUT'):
                continue
            if r == 3 and len(set(seq)) < 2:
                continue
            if any(o == 'GET' and not any(q[0] == 'P' for q in seq[:j])
                   for j, o in enumerate(seq)):
                continue
            out.append(dict(seq='-'.join(seq)))
    if L == 2:
        for seq in ('PA5-PB5-PA5', 'PA5-N6-PA0', 'PA0-N6-PA0', 'PA4h-XA4h-PA4h',
                    'PA5-MUT-PA5', 'PA4-PA4h-PA4', 'PA5-XA4h-PA5', 'PA0-N6-GET',
                    'PA5-PC5-PA5', 'PA4-N6-PA4', 'PA5-MUT-GET', 'N6-PA0-N6'):
            if not seq.endswith('N6'):
                out.append(dict(seq=seq))
    return out


@harness(hist_cfgs, xtol=1e-5, max_paths=200)
def history(t, seq):
    """Every request on a used object returns what a fresh object returns."""
    m = t.mod('wavelets')
    A, B = t.real('A', (2,), .1, 8.), t.real('B', (2,), .1, 8.)
    same = t.boolean('same')
    if bool(same):
        B = t.copy(A)
    else:
        t.assume(abs(A[0] - B[0]) > .001)
        t.assume(abs(A[0] + .25 - B[0]) > .001)
    C = t.np.array([A[0], A[1], A[1] * 1.5])
    sc = dict(A=A, B=B, C=C)
    A0 = t.copy(A)
    with U.env():
        wav = m.Wavelet(custom, N=5)
        N0, last = 5, None
        for op in seq.split('-'):
            if op == 'N6':
                wav.N = 6
                N0 = 6
                continue
            if op == 'MUT':
                # caller reuses its own array
                A[0] = A[0] + .25
                continue
            if op == 'GET':
                got = wav.Psih()
                sv, n, nh = last
            else:
                S, n, nh = sc[op[1]], int(op[2]), not op.endswith('h')
                kw = dict(N=n) if n else {}
                n = n or N0
                sv = t.copy(S)
                if op[0] == 'P':
                    got = wav.Psih(scale=S, nohalf=nh, **kw)
                    last = (sv, n, nh)
                else:
                    got = wav(scale=S, nohalf=nh, **kw)
            t.eqs(tuple(got.shape), (len(sv), n), 'shape')
            for i in range(len(sv)):
                for k in range(n):
                    t.close(got[i, k], cust_at(t, sv[i], k, n, nh), 1e-5,
                            'same as a fresh object')
    t.obs('got', got)
