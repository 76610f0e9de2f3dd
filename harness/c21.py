# -*- coding: utf-8 -*-
"""C21: FFT wrappers equal the discrete Fourier transform, whatever the history."""
import contextlib
import shutil
import tempfile
import numpy as np
from symx.api import harness
from harness import util as U

BOUNDS = ('arbitrary values in [-1, 1] (complex parts too); lengths 1-9, 1-D and 2-D, '
          'axes 0 / 1 / -1, every patience kind; histories of 2-3 calls chosen by the '
          'solver among 6-8 differing in transform, length, axis, precision, planning '
          'options; object cache on and off')
ASSUMPTIONS = ['pyfftw is modelled by its documented contract (planning overwrites the '
               'buffers, executing writes the one output buffer and, for '
               'complex-to-real, destroys the input buffer; shapes and precisions of the '
               'two buffers must match); replays use the real pyfftw',
               'scipy.fft is modelled as the exact DFT']


# ------------------------------------------------------------------ model of pyfftw
class FakeFFTW:
    def __init__(self, t):
        self.np = t.np
        outer = self

        class FFTW:
            def __init__(s, a, b, axes=(-1,), direction='FFTW_FORWARD',
                         flags=('FFTW_MEASURE',), threads=1, planning_timelimit=None,
                         normalise_idft=True, ortho=False):
                assert direction in ('FFTW_FORWARD', 'FFTW_BACKWARD'), direction
                assert threads >= 1 and len(axes) == 1
                s.ax = axes[0]
                s.back = direction == 'FFTW_BACKWARD'
                ka, kb = np.dtype(a.dtype).kind, np.dtype(b.dtype).kind
                dbl = [np.dtype(q.dtype) in (np.dtype('float64'), np.dtype('complex128'))
                       for q in (a, b)]
                s.kind = ka + kb
                n = b.shape[s.ax] if s.kind == 'cf' else a.shape[s.ax]
                want = list(a.shape)
                if s.kind == 'fc':
                    want[s.ax] = n // 2 + 1
                elif s.kind == 'cf':
                    want[s.ax] = n
                if (dbl[0] != dbl[1] or s.kind == 'ff' or list(b.shape) != want or
                        s.kind == 'cf' and a.shape[s.ax] != n // 2 + 1 or
                        s.back != (s.kind == 'cf') and s.kind != 'cc'):
                    raise ValueError('invalid FFTW scheme')
                s.n = n
                s.input_array, s.output_array = a, b
                a[...] = .77            # planning overwrites the arrays
                b[...] = .55

            def __call__(s, input_array=None, output_array=None, **k):
                if input_array is not None:
                    s.input_array[...] = input_array
                f = outer.np.fft
                x = outer.np.array(s.input_array)
                s.output_array[...] = (
                    f.rfft(x, axis=s.ax) if s.kind == 'fc' else
                    f.irfft(x, n=s.n, axis=s.ax) if s.kind == 'cf' else
                    (f.ifft if s.back else f.fft)(x, axis=s.ax))
                if s.kind == 'cf':
                    s.input_array[...] = .33
                return s.output_array
        self.FFTW = FFTW

    def empty_aligned(self, shape, dtype='float64', order='C', n=None):
        return self.np.zeros(shape, dtype=dtype) + self.np.zeros(shape, dtype=dtype)

    def import_wisdom(self, w):
        pass

    def export_wisdom(self):
        return b'd', b's', b'l'

    class config:
        NUM_THREADS = 1


@contextlib.contextmanager
def maker(t, **kw):
    """An FFT instance with its own wisdom folder."""
    ff = t.mod('utils.fft_utils')
    d = tempfile.mkdtemp(prefix='wis')
    fake = {} if ff.pyfftw is not None else dict(pyfftw=FakeFFTW(t))
    try:
        with U.patched(ff, **fake):
            yield ff.FFT(wisdom_dir=d, verbose=0, threads=1, planning_timelimit=2, **kw)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------- oracle
def dft(t, x, axis, kind, n=None):
    """Direct evaluation of the defining sum."""
    x = t.np.swapaxes(x, axis, -1) if x.ndim == 2 else x
    M = x.shape[-1]
    if kind in ('fft', 'ifft', 'rfft'):
        sg = 1 if kind == 'ifft' else -1
        K = M // 2 + 1 if kind == 'rfft' else M
        out = t.const(np.zeros(x.shape[:-1] + (K,), dtype='complex128'))
        for k in range(K):
            for m in range(M):
                out[..., k] = out[..., k] + x[..., m] * complex(
                    np.exp(sg * 2j * np.pi * (k * m % M) / M))
        if kind == 'ifft':
            out = out * (1. / M)
    else:
        L = 2 * (M - 1) if n is None else n
        out = t.const(np.zeros(x.shape[:-1] + (L,)))
        for m in range(L):
            for k in range(L // 2 + 1):
                c = np.exp(2j * np.pi * (k * m % L) / L)
                w = 1 if k == 0 or 2 * k == L else 2
                if k < M:
                    v = x[..., k]
                    out[..., m] = out[..., m] + (
                        v.real * float(c.real) - v.imag * float(c.imag)) * (w / L)
    return t.np.swapaxes(out, axis, -1) if out.ndim == 2 else out


def call(F, kind, x, axis, patience, n):
    k = dict(axis=axis, patience=patience)
    if n is not None:
        k['n'] = n
    return getattr(F, kind)(x, **k)


def precision(kind, dt):
    """Dtype of the result for input of dtype dt."""
    b = 32 if dt in ('float32', 'complex64') else 64
    return np.dtype('float%d' % b if kind == 'irfft' else 'complex%d' % (2 * b))


def make_input(t, name, kind, shape, dtype):
    if np.dtype(dtype).kind == 'c':
        return t.cplx(name, shape, dtype=dtype)
    return t.real(name, shape, dtype=dtype)


def cfgs(tier):
    out = []
    i = 0
    for kind in ('fft', 'ifft', 'rfft', 'irfft'):
        for N in range(1, 10):
            for pat in (0, 1, 2, (1, 1.)):
                i += 1
                if tier == 'quick' and (i % 3 or N > 6) and not (pat == 0 and N in (8, 9)):
                    continue
                dt = ('float64', 'float32')[i % 2] if kind == 'rfft' else \
                    ('complex128', 'float64', 'complex64')[i % 3]
                for sh, ax in (((N,), -1), ((N,), 0), ((2, N), -1), ((2, N), 1),
                               ((N, 2), 0)):
                    if tier == 'quick' and N > 3 and ax == 0 and len(sh) == 1:
                        continue
                    if kind == 'irfft':
                        for n in ((None,) if N > 1 else ()) + (2 * N - 1, 2 * N - 2):
                            if n is None or n > 0:
                                out.append(dict(kind=kind, shape=list(sh), axis=ax,
                                                pat=pat, dt=dt, n=n))
                    else:
                        out.append(dict(kind=kind, shape=list(sh), axis=ax, pat=pat,
                                        dt=dt, n=None))
    return out


@harness(cfgs, xtol=1e-4)
def definition(t, kind, shape, axis, pat, dt, n):
    pat = tuple(pat) if isinstance(pat, list) else pat
    x = make_input(t, 'x', kind, tuple(shape), dt)
    x0 = t.copy(x)
    with maker(t) as F:
        y = call(F, kind, x, axis, pat, n)
        t.close(y, dft(t, x0, axis, kind, n), 1e-5, 'discrete Fourier transform')
        t.eqs(np.dtype(y.dtype), precision(kind, dt), 'precision of the input is kept')
        t.close(x, x0, 0., 'input not modified')
        F.patience = pat
        z = call(F, kind, x, axis, None, n)
        t.close(z, y, 1e-6, 'default patience gives the same result')


@harness(lambda tier: [dict(N=n, nd=d, fn=f, ax=a) for n in range(1, 10)
                       for f in ('fftshift', 'ifftshift')
                       for d, a in ((1, -1), (1, 0), (2, -1), (2, 0), (2, 1))
                       if tier != 'quick' or n < 7])
def shifts(t, N, nd, fn, ax):
    sh = (N,) if nd == 1 else ((N, 2) if ax == 0 else (2, N))
    x = t.real('x', sh)
    x0 = t.copy(x)
    for F in (t.mod('').fft.__self__, t.mod('utils.fft_utils').FFT_GLOBAL):
        y = getattr(F, fn)(x, axes=ax)
        h = N // 2 if fn == 'ifftshift' else (N + 1) // 2
        for k in range(N):
            a, b = (y[k], x0[(k + h) % N]) if nd == 1 or ax == 0 else \
                (y[:, k], x0[:, (k + h) % N])
            t.close(a, b, 0., 'half rotation')
    t.close(x, x0, 0., 'input not modified')
    y = t.mod('utils.fft_utils').ifftshift(
        t.mod('utils.fft_utils').fftshift(x, axes=ax), axes=ax)
    t.close(y, x0, 0., 'shifts are inverses')


@harness(lambda tier: [dict(N=n) for n in range(1, 13)])
def analytic_shift(t, N):
    """The shift used for wavelet grids orders frequencies with Nyquist last."""
    w = t.mod('wavelets')
    x = t.real('x', (N,))
    x0 = t.copy(x)
    y = w.aifftshift(x)
    h = N // 2 + 1 if N % 2 == 0 else (N + 1) // 2      # non-negative frequencies
    order = list(range(h, N)) + list(range(h))
    if N % 2:
        order = [(k + N // 2) % N for k in range(N)]    # ifftshift of odd length
    for k in range(N):
        t.close(y[k], x0[order[k]], 0., 'order of the bins')
    t.close(x, x0, 0., 'input not modified')


OPS = [
    ('fft', (3,), -1, 'float64', 1, None), ('ifft', (3,), -1, 'float64', 1, None),
    ('rfft', (3,), -1, 'float64', 1, None), ('irfft', (3,), -1, 'complex128', 1, None),
    ('irfft', (3,), -1, 'complex128', 1, 5), ('fft', (3,), -1, 'complex128', 1, None),
    ('fft', (3,), -1, 'complex128', 2, None), ('ifft', (3,), 0, 'complex128', (1, 1.), None),
    ('fft', (3, 2), 0, 'float64', 1, None), ('fft', (3, 2), 1, 'float64', 1, None),
    ('rfft', (2, 3), -1, 'float64', 1, None), ('rfft', (2, 3), 0, 'float64', 1, None),
    ('irfft', (2, 2), 0, 'complex128', 1, 2), ('irfft', (2, 2), 0, 'complex128', 1, 3),
    ('ifft', (3, 2), 0, 'float64', 0, None), ('irfft', (2, 2), 1, 'complex128', 1, 2),
    ('fft', (3,), -1, 'complex64', 1, None), ('fft', (3,), -1, 'float32', 1, None),
    ('fft', (3,), -1, 'complex128', 0, None), ('rfft', (3,), -1, 'float32', 0, None),
    ('fft', (1, 3), -1, 'float64', 1, None), ('fft', (2, 3), 1, 'float64', 1, None),
]


def hcfgs(tier):
    out = []
    for cache in (True, False):
        for k, ops in enumerate(([0, 1, 2], [3, 4, 5], [5, 6, 7], [8, 9, 14],
                                 [10, 11, 2], [12, 13, 15], [0, 5, 1],
                                 [5, 16, 0, 17], [18, 5], [19, 2], [0, 20], [9, 21])):
            L = 3 if tier != 'quick' or k in (0, 1) else 2
            if not cache and tier == 'quick' and k % 2:
                continue
            out.append(dict(ops=ops, cache=cache, L=L))
    return out


@harness(hcfgs, xtol=1e-4)
def history(t, ops, cache, L):
    """Results do not depend on, and are not changed by, other calls."""
    with maker(t, cache_fft_objects=cache) as F:
        res = []
        for k in range(L):
            i = t.integer('op%d' % k, 0, len(ops) - 1)
            for j in range(len(ops)):       # (solver-chosen history)
                if bool(i == j):
                    kind, sh, ax, dt, pat, n = OPS[ops[j]]
            x = make_input(t, 'x%d' % k, kind, sh, dt)
            x0 = t.copy(x)
            y = call(F, kind, x, ax, pat, n)
            res.append((y, x, x0, (kind, ax, n), dt))
        for y, x, x0, (kind, ax, n), dt in res:
            t.eqs(np.dtype(y.dtype), precision(kind, dt), 'precision of the input')
            t.eqs(tuple(y.shape), tuple(dft(t, x0, ax, kind, n).shape), 'shape')
            t.close(y, dft(t, x0, ax, kind, n), 1e-5,
                    'discrete Fourier transform after other calls')
            t.close(x, x0, 0., 'input not modified')


@harness(lambda tier: [dict(what=w) for w in ('axis', 'complex', 'int', 'patience',
                                              'ptype')])
def rejected(t, what):
    """Unsupported requests raise instead of returning something else."""
    with maker(t) as F:
        x = t.real('x', (2, 2, 3) if what == 'axis' else (4,))
        if what == 'axis':
            t.raises(Exception, lambda: F.fft(x, axis=2, patience=1), 'axis')
        elif what == 'complex':
            z = t.cplx('z', (4,))
            t.raises(Exception, lambda: F.rfft(z, patience=1), 'complex rfft')
            t.raises(Exception, lambda: F.rfft(z), 'complex rfft')
        elif what == 'int':
            t.raises(Exception, lambda: F.fft(np.arange(4), patience=1), 'integer input')
        elif what == 'patience':
            t.raises(Exception, lambda: F.fft(x, patience=3), 'patience')

            def f():
                F.patience = 5
            t.raises(Exception, f, 'patience')
        else:
            t.raises(Exception, lambda: F.fft(x, patience='1'), 'patience type')
        F.fft(x[..., :2], patience=1) if what != 'axis' else None
