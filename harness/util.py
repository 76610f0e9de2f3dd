# -*- coding: utf-8 -*-
"""Oracles shared by the synchrosqueezing harnesses (independent of /repo)."""
import contextlib
import os
import numpy as np


@contextlib.contextmanager
def env(**kw):
    old = {k: os.environ.get(k) for k in kw}
    try:
        for k, v in kw.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def par(flag):
    """Force multi-threaded or single-threaded kernels through the documented
    environment override."""
    return env(SSQ_PARALLEL=None if flag else '0')


def freqs(kind, R, lo=.03125, hi=.25):
    """Increasing frequency labels, R rows."""
    if kind == 'log':
        return lo * (hi / lo) ** (np.arange(R) / (R - 1))
    if kind == 'linear':
        return np.linspace(lo, hi, R)
    if kind == 'linear0':           # as STFT: starts at zero
        return np.linspace(0., .5, R)
    # piecewise: coarse octaves first, then finer steps
    idx = (R + 1) // 2              # number of rows of the coarse part
    if kind == 'log-piecewise':
        a, b = 1., .375
    elif kind == 'log-piecewise-rev':
        a, b = .375, 1.
    e = [0.]
    for k in range(1, R):
        e.append(e[-1] + (a if k < idx else b))
    return lo * 2 ** np.array(e)


def scales(kind, R):
    """Increasing scales, and the per-row weight documented for them."""
    if kind == 'log':
        return 2. * 2 ** (np.arange(R) / 4.), np.full(R, np.log(2) / 4)
    if kind == 'linear':
        s = 2. + .75 * np.arange(R)
        return s, .75 / s
    idx = R // 2
    e, nv = [0.], [4.]
    for k in range(1, R):
        st = .25 if k <= idx else .5
        e.append(e[-1] + st)
        nv.append(1 / st)
    return 2. * 2 ** np.array(e), np.log(2) / np.array(nv)


def edges(f, kind):
    """Bin boundaries (values of w) between neighbouring labels."""
    if kind.startswith('log'):
        return np.sqrt(f[1:] * f[:-1])
    return (f[1:] + f[:-1]) / 2


def bins(t, w, f, kind):
    """Indicator conditions [k] : w belongs to label k (w finite)."""
    e = edges(f, kind)
    R = len(f)
    out = []
    for k in range(R):
        c = None
        if k > 0:
            c = w > e[k - 1]
        if k < R - 1:
            d = w <= e[k]
            c = d if c is None else c & d
        out.append(c)
    return out


def hints(cfg):
    """Points where log2 is pinned exactly (labels and boundaries)."""
    kind = cfg['fk']
    f = freqs(kind, cfg.get('nf', cfg['R']))
    if not kind.startswith('log'):
        return []
    out = list(f)
    for e in edges(f, kind):
        out += [e * (1 - 1e-9), e, e * (1 + 1e-9)]
    return [float(x) for x in sorted(out) if x > 0]


def place(t, Wx, w, f, kind, c, flipud):
    """Ideal synchrosqueezing of 2-D Wx by phase transform w (inf = dropped)."""
    R, N = Wx.shape
    nf = len(f)
    rows = [[None] * N for _ in range(nf)]
    for j in range(N):
        acc = [0.] * nf
        for i in range(R):
            fin = ~t.np.isinf(w[i, j])
            term = Wx[i, j] * c[i]
            for k, b in enumerate(bins(t, w[i, j], f, kind)):
                acc[k] = acc[k] + t.ite(b & fin, term, 0.)
        for k in range(nf):
            rows[nf - 1 - k if flipud else k][j] = acc[k]
    return t.np.array(rows)


def place_labels(t, Wx, w, labels, kind, c):
    """As `place`, for output rows described by `labels` in any order."""
    labels = np.asarray(labels, dtype=float)
    order = np.argsort(labels)
    base = place(t, Wx, w, labels[order], kind, c, False)
    rows = [None] * len(labels)
    for k, r in enumerate(order):
        rows[int(r)] = base[k]
    return t.np.array(rows)


@contextlib.contextmanager
def patched(module, **attrs):
    """Replace module-level names by stand-ins (compositional checks)."""
    old = {k: getattr(module, k) for k in attrs if hasattr(module, k)}
    try:
        for k, v in attrs.items():
            if k in old:
                setattr(module, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(module, k, v)


def fake_cwt(Wx, dWx, scales):
    """Stand-in for cwt: unconstrained transform and derivative."""
    def cwt(x, *a, derivative=False, **kw):
        if derivative:
            return Wx, scales, dWx
        return Wx, scales
    return cwt


def fake_stft(Sx, dSx):
    def stft(x, *a, derivative=False, **kw):
        return (Sx, dSx) if derivative else Sx
    return stft


def apart(t, W, g, eps=1e-6):
    """Assume every |W| is clearly on one side of the threshold g."""
    for v in W.ravel():
        m = v.real ** 2 + v.imag ** 2
        t.assume((m > g * g + eps) | (m < g * g - eps))


_ADM = {}


def memo_adm(t):
    """Context: `adm_ssq` answers from a memo of its own results (it is a costly
    concrete quadrature, repeated on every explored path)."""
    from contextlib import ExitStack
    st = ExitStack()
    real = t.mod('utils.cwt_utils').adm_ssq

    def adm(wavelet):
        key = (repr(wavelet) if isinstance(wavelet, (str, tuple)) else
               wavelet.name + repr(sorted(wavelet.config.items())), t.sym)
        if key not in _ADM:
            _ADM[key] = real(wavelet)
        return _ADM[key]
    for m in ('_ssq_cwt', '_cwt'):
        st.enter_context(patched(t.mod(m), adm_ssq=adm))
    return st


def ext(x, i, N, padtype, t):
    """Value of the ideal infinite extension of x (last axis) at index i."""
    if 0 <= i < N:
        return x[..., i]
    if padtype == 'zero':
        return x[..., 0] * 0.
    if padtype == 'replicate':
        return x[..., 0] if i < 0 else x[..., N - 1]
    if padtype == 'wrap':
        return x[..., i % N]
    if padtype == 'symmetric':
        j = i % (2 * N)
        return x[..., j if j < N else 2 * N - 1 - j]
    if padtype == 'reflect':
        if N == 1:
            return x[..., 0]
        P = 2 * (N - 1)
        j = i % P
        return x[..., j if j < N else P - j]


_MEMO = {}


def _key(v):
    if isinstance(v, np.ndarray):
        return ('a', v.shape, str(v.dtype), tuple(float(q) for q in v.ravel()))
    if hasattr(v, 'config') and hasattr(v, 'fn'):
        return (v.name, v.dtype, repr(sorted(v.config.items())))
    if isinstance(v, dict):
        return tuple(sorted((k, _key(q)) for k, q in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(_key(q) for q in v)
    return repr(v)


def memo(t):
    """Context: costly functions of concrete arguments (wavelet constants and
    scale bounds) answer from a memo of their own results."""
    from contextlib import ExitStack
    st = ExitStack()
    mods = [t.mod(m) for m in ('_ssq_cwt', '_cwt', 'utils.cwt_utils',
                               'ssqueezing', 'utils')]
    for name in ('adm_ssq', 'adm_cwt', 'cwt_scalebounds',
                 'find_downsampling_scale', 'center_frequency',
                 'find_max_scale', 'find_min_scale'):
        real = getattr(t.mod('utils.cwt_utils'), name, None)
        if real is None:
            continue

        def wrap(*a, _real=real, _n=name, **k):
            try:
                key = (_n, t.sym, _key(a), _key(k))
            except Exception:
                return _real(*a, **k)
            if key not in _MEMO:
                _MEMO[key] = _real(*a, **k)
            return _MEMO[key]
        for m in mods:
            if getattr(m, name, None) is real:
                st.enter_context(patched(m, **{name: wrap}))
    return st
