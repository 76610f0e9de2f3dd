# -*- coding: utf-8 -*-
"""C19: sampling rate and time vector are interpreted consistently."""
import numpy as np
from symx.api import harness
from harness import util as U

BOUNDS = ('signals of 3-9 arbitrary samples in [-1, 1]; any sampling rate in [1/64, 64] '
          'and any start time in [-10, 10] for derivatives; rates 1/8, .7, 4, 1000 for '
          'synchrosqueezing labels and values; every sampling rate <= 0, every time '
          'vector with one sample displaced by more than 1e-4, constant, decreasing or of '
          'another length')
ASSUMPTIONS = ['phase transform values exactly on a bin boundary excluded',
               'time vectors have at least 3 samples (2 carry no uniformity)']
F64 = ('morlet', {'dtype': 'float64'})
SC = {'log': 8. * 2. ** np.arange(3), 'linear': 8. + 8 * np.arange(3.)}


def timevec(t, N, fs):
    t0 = t.real('t0', (), -10., 10.)
    tv = t.const(np.zeros(N))
    for k in range(N):
        tv[k] = t0 + t.div(1. * k, fs)
    return tv


def derivs(T, api, x, **kw):
    """(transform, derivative) of the API."""
    m = T.mod('')
    if api == 'stft':
        return m.stft(x, n_fft=5, window=np.array([.2, .7, 1., .6, .1]),
                      derivative=True, dtype='float64', padtype='zero', **kw)
    o = dict(vectorized=api != 'cwt-loop')
    if api == 'cwt-order':
        o = dict(order=(1, 2), average=True)
        wav = ('gmw', {'dtype': 'float64'})
    elif api == 'cwt-order1':
        o = dict(order=1)
        wav = ('gmw', {'dtype': 'float64'})
    else:
        wav = F64
    padt = None if api == 'cwt-nopad' else 'reflect'
    W, s, D = m.cwt(x, wav, scales=SC['log'], derivative=True, padtype=padt,
                    cache_wavelet=False, **o, **kw)
    return W, D


APIS = ('stft', 'cwt', 'cwt-loop', 'cwt-nopad', 'cwt-order', 'cwt-order1')


RATES = (.125, .7, 4., 1000.)


def dcfgs(tier):
    out = []
    for i, a in enumerate(APIS):
        for n, d in ((5, 1), (4, 1), (3, 2)):
            if 'order' in a and d == 2 or tier == 'quick' and n == 4 + i % 2:
                continue
            for fs in (None,) + (RATES if tier != 'quick' else RATES[i % 2::2]):
                out.append(dict(api=a, N=n, nd=d, fs=fs))
    return out


@harness(dcfgs, xtol=1e-5)
def derivative(t, api, N, nd, fs):
    """Derivatives scale with the sampling rate; transforms do not depend on it
    (given rate: any signal; any rate: given signal)."""
    sh = (2, N) if nd == 2 else (N,)
    if fs is None:
        x = t.const(np.cos(1.7 * np.arange(np.prod(sh)) + .2).reshape(sh))
        fs = t.real('fs', (), 1 / 64, 64.)
        tol = 1e-6
    else:
        x = t.real('x', sh)
        tol = 1e-8 * max(fs, 1)
    W1, D1 = derivs(t, api, t.copy(x))
    W2, D2 = derivs(t, api, t.copy(x), fs=fs)
    tv = timevec(t, N, fs)
    tv0 = t.copy(tv)
    W3, D3 = derivs(t, api, t.copy(x), t=tv)
    W4, D4 = derivs(t, api, t.copy(x), fs=17., t=tv)
    t.close(tv, tv0, 0., 'time vector not modified')
    for W, D, how in ((W2, D2, 'fs'), (W3, D3, 't'), (W4, D4, 't overrides fs')):
        t.close(W, W1, 1e-9, 'transform independent of sampling rate (%s)' % how)
        t.close(D, D1 * fs, tol, 'derivative scales with sampling rate (%s)' % how)


@harness(lambda tier: [dict(fn=f) for f in ('trigdiff', 'trigdiff-pad', 'phase_num1',
                                            'phase_num2', 'phase_num4')], xtol=1e-4)
def numeric(t, fn):
    """Numeric derivatives scale with the sampling rate."""
    fs = t.real('fs', (), 1 / 64, 64.)
    if fn.startswith('trigdiff'):
        A = t.cplx('A', (2, 4))
        f = t.mod('utils.common').trigdiff
        kw = dict(padtype='reflect') if fn.endswith('pad') else \
            dict(rpadded=True, N=2, n1=1)
        a, b = f(t.copy(A), fs, **kw), f(t.copy(A), **kw)
        t.close(a, b * fs, 1e-6, 'derivative scales with sampling rate')
        return
    rs = np.random.RandomState(4)
    W = (rs.randn(2, 6) + 1j * rs.randn(2, 6))
    W[0] *= np.exp(1j * np.arange(6))
    f = t.mod('_ssq_cwt').phase_cwt_num
    dt = t.div(1., fs)
    a = f(t.const(W), dt, int(fn[-1]), gamma=.01)
    b = f(t.const(W), 1., int(fn[-1]), gamma=.01)
    t.close(a, b * fs, 1e-6, 'phase transform scales with sampling rate')


GAMMA = .02


def ssq_cfgs(tier):
    out = []
    for i, fs in enumerate(RATES):
        for j, (fk, mr) in enumerate((('log', 'maximal'), ('linear', 'maximal'),
                                      ('log', 'peak'), ('linear', 'energy'),
                                      (None, 'peak'), ('log', (.05, .2)))):
            for gw in (False, True):
                if tier == 'quick' and (i + j + gw) % 2:
                    continue
                out.append(dict(fs=fs, fk=fk, mr=mr, mode='get_w' if gw else '',
                                sk=('log', 'linear')[(i + j) % 2]))
        for mode in ('order', 'order,get_w', 'numeric,get_w', 'phase,get_w'):
            out.append(dict(fs=fs, fk='log', mr='peak', mode=mode, sk='log'))
    return out


def passed(fs, t):
    """Rate meant by the arguments (independent of the library)."""
    if t is not None:
        return 1 / (t[1] - t[0])
    return 1. if fs is None else fs


def one_free(t, shape, at, ph=1.):
    """Constant transform and derivative but for one entry of the derivative."""
    W = np.array([[1j ** (i * ph + j) * (1. + .1 * i) for j in range(shape[1])]
                  for i in range(shape[0])])
    D = .9 * W * 1j * (1 + np.arange(shape[0])[:, None]) ** .5
    W, D = t.const(W), t.const(D)
    D[at] = t.cplx('d', (), bound=4.)
    return W, D


def clear(t, v, d, labels, Sf=None):
    """Assume the phase transform of the free entry is off every bin boundary."""
    w = (d * v.conjugate()).imag * (1 / (abs(v) ** 2 * 6.283185307179586))
    if Sf is not None:
        w = Sf - w
    w = abs(w)
    f = np.asarray(labels, dtype=float)
    f = np.sort(f)
    for e in list((f[1:] + f[:-1]) / 2) + list(np.sqrt(f[1:] * f[:-1])):
        t.assume((w > e * 1.0001 + 1e-6) | (w < e * .9999 - 1e-6))


@harness(ssq_cfgs, xtol=1e-4)
def ssq_cwt(t, fs, fk, mr, mode, sk):
    """Labels scale with the rate; energy lands in the same rows."""
    R = 3
    N = 32 if mr in ('peak', 'energy') else 3
    m = t.mod('')
    get_w = 'get_w' in mode
    n = m.utils.p2up(N)[0] if 'order' in mode or 'numeric' in mode else N
    Wx, D = one_free(t, (R, n), (1, n // 2))
    v0 = complex(1j ** (1 + n // 2) * 1.1)
    if 'order' in mode:
        Wx[1, 3] = t.cplx('w', (), bound=2.)

    def fake(x, *a, derivative=False, fs=None, t=None, **kw):
        f = passed(fs, t)
        s = SC[sk].reshape(-1, 1)
        W = Wx.copy()
        return (W, s, D * f) if derivative else (W, s)

    def fake_squeeze(W, w, *a, fs=None, t=None, dWx=None, **kw):
        return W, np.array([.1, .2, .3]) * passed(fs, t)

    def run(f, **kw):
        rng = tuple(v * f for v in mr) if isinstance(mr, (list, tuple)) else mr
        if 'order' in mode:
            kw['order'] = 1
        if 'numeric' in mode or 'phase' in mode:
            kw['difftype'] = mode.split(',')[0]
        st = t.mod('_ssq_cwt')
        sq = dict(ssqueeze=fake_squeeze) if 'order' in mode else {}
        with U.patched(st, cwt=fake, **sq), U.memo(t):
            return m.ssq_cwt(t.const(np.zeros(N)),
                             'gmw' if 'order' in mode else F64, scales=SC[sk],
                             ssq_freqs=fk, maprange=rng, gamma=GAMMA, get_w=get_w,
                             get_dWx=True, **kw)
    a = run(1.)
    clear(t, v0, D[1, n // 2], a[2])
    tv = t.const(3. + np.arange(N) / fs)
    for how, kw in (('fs', dict(fs=fs)), ('t', dict(t=tv)),
                    ('t overrides fs', dict(t=tv, fs=33.))):
        b = run(fs, **kw)
        t.eqs(len(a), len(b), 'number of outputs')
        t.close(b[0], a[0], 1e-6, 'same rows receive the same values (%s)' % how)
        t.close(b[1], a[1], 1e-9, 'same transform (%s)' % how)
        t.close(b[2] / fs, a[2], 1e-6, 'frequencies scale with the rate (%s)' % how)
        t.close(b[3], a[3], 1e-9, 'same scales (%s)' % how)
        if get_w:
            t.close(b[4] / fs, a[4], 1e-6, 'phase transform scales (%s)' % how)
        t.close(b[-1] / fs, a[-1], 1e-6, 'derivative scales (%s)' % how)


def st_cfgs(tier):
    return [dict(fs=fs, get_w=gw, fl=fl, sq=sq) for fs in RATES
            for gw, fl, sq in ((False, False, 'sum'), (True, False, 'sum'),
                               (False, True, 'sum'), (False, False, 'lebesgue'))]


@harness(st_cfgs, xtol=1e-4)
def ssq_stft(t, fs, get_w, fl, sq):
    N, R = 3, 4
    m = t.mod('')
    Sx, D = one_free(t, (R, N), (1, 1))
    assert abs(complex(Sx[1, 1]) + 1.1) < 1e-12

    def fake(x, *a, derivative=False, fs=None, t=None, **kw):
        return (Sx.copy(), D * passed(fs, t)) if derivative else Sx.copy()

    def run(**kw):
        with U.patched(t.mod('_ssq_stft'), stft=fake):
            return m.ssq_stft(t.const(np.zeros(N)), gamma=GAMMA, get_w=get_w,
                              get_dWx=True, flipud=fl, squeezing=sq, **kw)
    a = run()
    clear(t, complex(-1.1), D[1, 1], a[2], a[3][1])
    tv = t.const(-3. + np.arange(N) / fs)
    for how, kw in (('fs', dict(fs=fs)), ('t', dict(t=tv)),
                    ('t overrides fs', dict(t=tv, fs=33.))):
        b = run(**kw)
        t.eqs(len(a), len(b), 'number of outputs')
        t.close(b[0], a[0], 1e-6, 'same rows receive the same values (%s)' % how)
        t.close(b[1], a[1], 1e-9, 'same transform (%s)' % how)
        t.close(b[2] / fs, a[2], 1e-6, 'frequencies scale with the rate (%s)' % how)
        t.close(b[3] / fs, a[3], 1e-6, 'row frequencies scale with the rate (%s)' % how)
        if get_w:
            t.close(b[4] / fs, a[4], 1e-6, 'phase transform scales (%s)' % how)
        t.close(b[-1] / fs, a[-1], 1e-6, 'derivative scales (%s)' % how)


def calls(t, N):
    """Every API taking a rate or a time vector, on a signal of N samples."""
    m = t.mod('')
    x = t.const(np.cos(np.arange(N) * 1.7))
    W, D = one_free(t, (3, N), (1, 1))
    f = np.array([.05, .1, .2])
    return {
        'cwt': lambda **k: m.cwt(x, F64, scales=SC['log'], cache_wavelet=False, **k),
        'cwt-order': lambda **k: m.cwt(x, 'gmw', scales=SC['log'], order=1,
                                       cache_wavelet=False, **k),
        'ssq_cwt': lambda **k: m.ssq_cwt(x, F64, scales=SC['log'],
                                         cache_wavelet=False, **k),
        'stft': lambda **k: m.stft(x, n_fft=4, window=np.ones(4), **k),
        'ssq_stft': lambda **k: m.ssq_stft(x, n_fft=4, window=np.ones(4), **k),
        'ssqueeze': lambda **k: m.ssqueeze(W, dWx=D, ssq_freqs=f, scales=SC['log'],
                                           gamma=GAMMA, transform='cwt', **k),
    }


NAMES = ('cwt', 'cwt-order', 'ssq_cwt', 'stft', 'ssq_stft', 'ssqueeze')


@harness(lambda tier: [dict(api=a) for a in NAMES])
def bad_rate(t, api):
    """Zero or negative sampling rates are rejected."""
    N = 4
    f = calls(t, N)[api]
    fs = t.real('fs', (), -100., 0.)
    t.raises(Exception, lambda: f(fs=fs), 'non-positive sampling rate rejected')
    f(fs=2.)        # (the call itself is valid)


@harness(lambda tier: [dict(api=a, N=n, bad=b) for i, a in enumerate(NAMES)
                       for j, b in enumerate(('jitter', 'reverse', 'constant', 'short',
                                              'long', 'long2'))
                       for n in ((4, 6)[(i + j) % 2],)])
def bad_time(t, api, N, bad):
    """Non-uniform or mis-sized time vectors are rejected, whatever `fs`."""
    f = calls(t, N)[api]
    M = {'short': N - 1, 'long': N + 1, 'long2': 2 * N}.get(bad, N)
    step = t.real('dt', (), .01, 10.)
    if bad == 'reverse':
        step = -step
    elif bad == 'constant':
        step = step * 0.
    tv = t.const(np.zeros(M))
    t0 = t.real('t0', (), -10., 10.)
    for k in range(M):
        tv[k] = t0 + step * k
    if bad == 'jitter':
        d = t.real('d', (), -5., 5.)
        t.assume((d > 1e-4) | (d < -1e-4))
        k = t.integer('k', 0, N - 1)
        tv[k] = tv[k] + d
    for kw in ({}, dict(fs=2.)):
        t.raises(Exception, lambda: f(t=tv, **kw), 'time vector rejected: ' + bad)
    f(t=t.const(1. + .5 * np.arange(N)))    # (the call itself is valid)


def ps_cfgs(tier):
    out = []
    for i, fs in enumerate(RATES):
        for mode in ('', 'get_w', 'own', 'own,get_w', 'phase,get_w', 'numeric,get_w'):
            out.append(dict(fs=fs, mode=mode, tr='cwt'))
        for mode in ('', 'get_w'):
            out.append(dict(fs=fs, mode=mode, tr='stft'))
    return out


@harness(ps_cfgs, xtol=1e-4)
def phase_ssqueeze(t, fs, mode, tr):
    """The same for an arbitrary given transform (derivative given or computed)."""
    R, N = 3, 16
    e = t.mod('experimental')
    own = not ('get_w' == mode or mode == '')
    Wx, D = one_free(t, (R, N), (1, 1))
    v0, d0 = complex(-1.1), D[1, 1]
    kw = dict(gamma=GAMMA, get_w='get_w' in mode, get_dWx=True, transform=tr)
    if tr == 'cwt':
        kw.update(scales=SC['log'], wavelet=F64, ssq_freqs='log', maprange='maximal')
        kw['difftype'] = mode.split(',')[0] if 'phase' in mode or 'numeric' in mode \
            else 'trig'
        if 'numeric' in mode:       # (expects padded input)
            Wx = t.const(np.tile(np.asarray(Wx, dtype=complex), (1, 3))[:, :32])
            kw.update(rpadded=True, N=N, n1=8, difforder=4)
        else:
            kw['padtype'] = 'reflect'

    def run(f, **k):
        d = None if own else D * f
        if tr == 'stft':
            k['ssq_freqs'] = np.linspace(0, .5, R) * f
        with U.memo(t):
            return e.phase_ssqueeze(Wx.copy(), d, **kw, **k)
    a = run(1.)
    if not own:
        clear(t, v0, d0, a[2], a[4][1] if tr == 'stft' else None)
    tv = t.const(-3. + np.arange(N) / fs)
    for how, k in (('fs', dict(fs=fs)), ('t', dict(t=tv)),
                   ('t overrides fs', dict(t=tv, fs=33.))):
        b = run(fs, **k)
        t.close(b[0], a[0], 1e-6, 'same rows receive the same values (%s)' % how)
        t.close(b[1], a[1], 1e-9, 'same transform (%s)' % how)
        t.close(b[2] / fs, a[2], 1e-6, 'frequencies scale with the rate (%s)' % how)
        if tr == 'stft':
            t.close(b[4] / fs, a[4], 1e-6, 'row frequencies scale (%s)' % how)
        if 'get_w' in mode:
            t.close(b[5] / fs, a[5], 1e-6, 'phase transform scales (%s)' % how)
        t.close(b[6] / fs, a[6], 1e-6, 'derivative scales (%s)' % how)


@harness(lambda tier: [dict(fs=f) for f in RATES])
def conversion(t, fs):
    """Scale / frequency conversion: physical frequencies are in units of fs."""
    e = t.mod('experimental')
    s = SC['log']
    a = e.scale_to_freq(s, F64, 64)
    b = e.scale_to_freq(s, F64, 64, fs=fs)
    t.close(np.asarray(b) / fs, a, 1e-9, 'frequencies scale with the rate')
    f = np.array([.05, .1, .2])
    c = e.freq_to_scale(f, F64, 64)
    d = e.freq_to_scale(f * fs, F64, 64, fs=fs)
    t.close(d, c, 1e-6, 'same scales for the same relative frequencies')
