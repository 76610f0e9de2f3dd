# -*- coding: utf-8 -*-
"""C09: GPU kernels compute what the CPU kernels compute."""
import numpy as np
from symx.api import harness
from harness import util as U
from harness import gpulib as G

BOUNDS = ('2-5 rows x 1-3 columns; every value of transform, derivative and phase in the '
          'unit box / [0, inf]; both precisions; threads of the launched grid run '
          'forward, backward and fully overlapped')
ASSUMPTIONS = ['torch and cupy are replaced by a minimal model (harness/gpulib.py): '
               'strided memory, dtypes, view_as_real/complex, and raw kernel launches; '
               'their own kernels and the CUDA compiler are trusted',
               'float is idealised as real also in kernels; phase transform values on a '
               'bin boundary (+-1e-7) excluded',
               'counterexamples replay on the kernel text compiled by g++ with host '
               'definitions of the CUDA names (no GPU here)']

FK = ('log', 'linear', 'log-piecewise', 'log-piecewise-rev')
CD = {'float64': 'complex128', 'float32': 'complex64'}


def tol(dt):
    return 1e-6 if dt == 'float64' else 2e-4


def double(W):
    return W * 2.


def triple(W):
    W *= 3.
    return W


SQ = {'sum': 'sum', 'abs': 'abs', 'lebesgue': 'lebesgue', 'fn': double}


def cfgs2(tier):
    out = []
    k = 0
    for fk in FK + ('linear0',):
        for flip in (False, True):
            for dt in ('float64', 'float32'):
                for sched in ('asc', 'overlap'):
                    k += 1
                    if tier == 'quick' and (k + k // 4) % 2:
                        continue
                    R = 2 if fk == 'linear0' else 4
                    out.append(dict(fk=fk, flip=flip, dt=dt, sched=sched, R=R,
                                    N=1 if fk.startswith('log-') else 2,
                                    nf=R + (1 if k % 3 == 0 else 0)))
    return out


def run(t, sched, Wx, w, dWx, Sfs, kw):
    with G.gpu(t, sched) as rt:
        T = lambda a: None if a is None else G.tensor(t, a)
        tW, tw, td = T(Wx), T(w), T(dWx)
        Tx, f = t.mod('ssqueezing').ssqueeze(tW, tw, dWx=td, Sfs=T(Sfs), **kw)
        t.true(isinstance(Tx, G.Tensor), 'the result stays on the device')
        return (G.host(Tx), f, [(tW, Wx), (tw, w), (td, dWx)], rt)


def cpu(t, Wx, w, dWx, Sfs, kw):
    with U.env(SSQ_GPU='0', SSQ_PARALLEL='0'):
        c = lambda a: None if a is None else t.copy(a)
        return t.mod('ssqueezing').ssqueeze(c(Wx), c(w), dWx=c(dWx), Sfs=c(Sfs), **kw)


def compare(t, sched, Wx, w, dWx, Sfs, kw, dt):
    kw0 = dict(kw, ssq_freqs=kw['ssq_freqs'].copy())
    T0, f0 = cpu(t, Wx, w, dWx, Sfs, kw0)
    T1, f1, ins, rt = run(t, sched, Wx, w, dWx, Sfs, kw)
    t.eqs(tuple(T1.shape), tuple(T0.shape), 'same output shape')
    t.close(T1, T0, tol(dt), 'GPU squeezing equals CPU squeezing')
    t.close(np.asarray(f1), np.asarray(f0), 1e-12, 'same labels')
    for a, b in ins:
        if a is not None:
            t.close(a.arr(), b, 1e-9, 'inputs unmodified')
    t.obs('T', T1)


@harness(cfgs2, hints=U.hints)
def two_step(t, fk, flip, dt, sched, R, N, nf):
    Wx = t.cplx('Wx', (R, N), dtype=CD[dt])
    w = t.ereal('w', (R, N), 0., 2., dtype=dt)
    f = U.freqs(fk, nf)
    kw = dict(ssq_freqs=f, flipud=flip, gamma=.25)
    if fk == 'linear0':
        kw.update(transform='stft', maprange='maximal')
    else:
        kw.update(scales=U.scales('linear' if flip else 'log', R)[0])
    compare(t, sched, Wx, w, None, None, kw, dt)


def cfgs1(tier):
    out = []
    k = 0
    for fk in FK[:3] + ('linear0',):
        for sq in SQ:
            for flip in (False, True):
                for dt in ('float64', 'float32'):
                    k += 1
                    if tier == 'quick' and (k + k // 4 + k // 8) % 2:
                        continue
                    R = 4 if fk == 'log-piecewise' else 3
                    if fk == 'linear0':
                        R = 2
                    out.append(dict(fk=fk, sq=sq, flip=flip, dt=dt, R=R, N=1,
                                    nf=max(R, 4 if fk == 'log' else 0) +
                                    (1 if k % 3 == 0 else 0)))
    return out


@harness(cfgs1, hints=U.hints, fnlink=False)
def one_pass(t, fk, sq, flip, dt, R, N, nf):
    Wx = t.cplx('Wx', (R, N), dtype=CD[dt])
    dWx = t.cplx('dWx', (R, N), dtype=CD[dt])
    U.apart(t, Wx, .25)
    f = U.freqs(fk, nf)
    kw = dict(ssq_freqs=f, flipud=flip, gamma=.25, squeezing=SQ[sq])
    Sfs = None
    if fk == 'linear0':
        Sfs = U.freqs(fk, R).astype(dt)
        kw.update(transform='stft', maprange='maximal')
    else:
        kw.update(scales=U.scales('log', R)[0])
    compare(t, 'asc', Wx, None, dWx, Sfs, kw, dt)


@harness(lambda tier: [dict(sched=s, tr=tr, flip=flip)
                       for s in ('desc', 'overlap') for tr in ('cwt', 'stft')
                       for flip in (False, True)], fnlink=False)
def threads(t, sched, tr, flip):
    """No two threads of a one-pass launch interfere."""
    R, N = (3 if tr == 'cwt' else 2), 2
    Wx, dWx = t.cplx('Wx', (R, N)), t.cplx('dWx', (R, N))
    U.apart(t, Wx, .25)
    f = U.freqs('linear0' if tr == 'stft' else 'linear', R)
    kw = dict(ssq_freqs=f, flipud=flip, gamma=.25)
    Sfs = None
    if tr == 'stft':
        Sfs = f.copy()
        kw.update(transform='stft', maprange='maximal')
    else:
        kw.update(scales=U.scales('log', R)[0])
    compare(t, sched, Wx, None, dWx, Sfs, kw, 'float64')


@harness(lambda tier: [dict(B=B, sq=sq, two=two, fk=fk) for B in (1, 2)
                       for sq in ('sum', 'lebesgue') for two in (False, True)
                       for fk in ('linear', 'linear0')], fnlink=False)
def batch(t, B, sq, two, fk):
    """Batched transforms on the device."""
    R, N = (3 if fk == 'linear' else 2), 1
    Wx, dWx = t.cplx('Wx', (B, R, N)), t.cplx('dWx', (B, R, N))
    w = t.ereal('w', (B, R, N), 0., 2.) if two else None
    U.apart(t, Wx, .25)
    kw = dict(ssq_freqs=U.freqs(fk, R), gamma=.25, squeezing=sq, flipud=B == 2)
    Sfs = None
    if fk == 'linear0':
        Sfs = U.freqs(fk, R)
        kw.update(transform='stft', maprange='maximal')
    else:
        kw.update(scales=U.scales('log', R)[0])
    compare(t, 'asc', Wx, w, None if two else dWx, Sfs, kw, 'float64')


def wide(t, name, R, N, dt, big=True):
    """Array with a symbolic last entry (all symbolic if small)."""
    if not big:
        return t.cplx(name, (R, N), dtype=CD[dt])
    i = np.arange(R * N).reshape(R, N) + (5 if name == 'Wx' else 0)
    W = t.np.zeros((R, N), dtype=CD[dt])
    W[...] = np.cos(1. + i) + 1j * np.sin(2. * i)
    W[-1, -1] = t.cplx(name, (1,), dtype=CD[dt])[0]
    return W


@harness(lambda tier: [dict(tr=tr, dt=dt, R=R, N=N, sched=s)
                       for tr in ('cwt', 'stft') for dt in ('float64', 'float32')
                       for R, N, s in ((3, 2, 'asc'), (2, 3, 'overlap'),
                                       (1, 3, 'asc'), (1, 35, 'asc'),
                                       (34, 1, 'asc'))], fnlink=False)
def phase(t, tr, dt, R, N, sched):
    """Phase transforms, including zeros and magnitudes equal to gamma."""
    big = R * N > 9         # several thread blocks: mostly given values
    Wx = wide(t, 'Wx', R, N, dt, big)
    dWx = wide(t, 'dWx', R, N, dt, big)
    g = .25
    U.apart(t, Wx[:, 1:], g)
    Wx[0, 0] = 0.
    if R > 1:
        Wx[1, 0] = g
    if R > 2:
        U.apart(t, Wx[2:, :1], g)
    Sfs = U.freqs('linear0', max(R, 2))[:R].astype(dt)
    args = (Sfs,) if tr == 'stft' else ()
    fn = (t.mod('_ssq_cwt').phase_cwt if tr == 'cwt' else
          t.mod('_ssq_stft').phase_stft)
    with U.env(SSQ_GPU='0', SSQ_PARALLEL='0'):
        w0 = fn(t.copy(Wx), t.copy(dWx), *args, gamma=g)
    with G.gpu(t, sched):
        tW, td = G.tensor(t, Wx), G.tensor(t, dWx)
        w1 = fn(tW, td, *[G.tensor(t, a) for a in args], gamma=g)
        t.eqs(w1.dtype.name, dt, 'precision of the phase transform')
        w1 = G.host(w1)
    t.eqs(tuple(w1.shape), tuple(w0.shape), 'same shape')
    t.close(w1, w0, tol(dt), 'GPU phase transform equals CPU phase transform')
    t.close(tW.arr(), Wx, 1e-9, 'Wx unmodified')
    t.close(td.arr(), dWx, 1e-9, 'dWx unmodified')
    t.obs('w', w1)


@harness(lambda tier: [dict(dt=dt, R=R, N=N, sched=s)
                       for dt in ('float64', 'float32')
                       for R, N, s in ((3, 2, 'asc'), (1, 4, 'asc'),
                                       (2, 3, 'overlap'), (1, 35, 'asc'),
                                       (34, 1, 'asc'))])
def under_abs(t, dt, R, N, sched):
    big = R * N > 9
    x = t.real('x', (R, N), dtype=dt)
    ref = wide(t, 'ref', R, N, dt, big)
    U.apart(t, ref, .5)
    ref[0, 0] = -.5
    fn = t.mod('algos').replace_under_abs
    a = t.copy(x)
    with U.env(SSQ_GPU='0', SSQ_PARALLEL='0'):
        fn(a, ref, .5, -3.)
    with G.gpu(t, sched):
        b, r = G.tensor(t, x), G.tensor(t, ref)
        fn(b, r, .5, -3.)
        t.close(r.arr(), ref, 1e-9, 'reference unmodified')
    t.close(G.host(b), a, tol(dt), 'GPU replacement equals CPU replacement')
    t.obs('x', G.host(b))


@harness(lambda tier: [dict(seg=seg, nd=nd, mod=mod, dt=dt)
                       for seg in (1, 2, 3, 4, 5) for nd in (1, 2)
                       for mod in (False, True) for dt in ('float64', 'float32')
                       if tier != 'quick' or (seg + nd + mod) % 2 == (
                           dt == 'float32')])
def framing(t, seg, nd, mod, dt):
    n = seg + 5
    x = t.real('x', (n,) if nd == 1 else (2, n), dtype=dt)
    buf = t.mod('utils.stft_utils').buffer
    for ov in range(seg):
        with U.env(SSQ_GPU='0', SSQ_PARALLEL='0'):
            a = buf(x, seg, ov, modulated=mod)
        with G.gpu(t, 'overlap' if ov % 2 else 'asc'):
            b = buf(G.tensor(t, x), seg, ov, modulated=mod)
            t.eqs(b.dtype.name, dt, 'precision of frames')
            b = G.host(b)
        t.close(b, a, tol(dt), 'GPU frames equal CPU frames')
    t.obs('b', b)


def sel_cfgs(tier):
    return [dict(v=v) for v in (None, '0', '1')]


@harness(sel_cfgs)
def selection(t, v):
    """Kernels used follow the type of the input, not the environment."""
    Wx, dWx = t.cplx('Wx', (2, 2)), t.cplx('dWx', (2, 2))
    U.apart(t, Wx, .25)
    with G.gpu(t) as rt, U.env(SSQ_GPU=v, SSQ_PARALLEL='0'):
        w = t.mod('_ssq_cwt').phase_cwt(Wx, dWx, gamma=.25)
        t.true(isinstance(w, np.ndarray), 'array in, array out')
        t.eqs(rt.launches, [], 'no kernel launched for arrays')
        w = t.mod('_ssq_cwt').phase_cwt(G.tensor(t, Wx), G.tensor(t, dWx),
                                        gamma=.25)
        t.true(isinstance(w, G.Tensor), 'tensor in, tensor out')
        t.eqs(len(rt.launches), 1, 'one kernel launched for tensors')


@harness(lambda tier: [dict(fk=fk, two=two, flip=flip)
                       for fk, flip in (('linear', False), ('log', True))
                       for two in (False, True) if two or fk == 'linear'],
         fnlink=False)
def blocks(t, fk, two, flip):
    """More columns than threads in a block; all but the last given."""
    R, N = 4, 1026
    i = np.arange(R * N).reshape(R, N)
    Wx = t.np.zeros((R, N), dtype='complex128')
    w = t.np.zeros((R, N)) + t.np.inf
    Wx[:, 0] = [.5, -.5j, .25, 1.]
    w[:, 0] = [.1, .2, 0.03, .12]
    Wx[:, -1:] = t.cplx('Wx', (R, 1))
    w[:, -1:] = t.ereal('w', (R, 1), 0., 2.)
    dWx = Wx * (.3 + 1.j)
    dWx[:, -1:] = t.cplx('dWx', (R, 1))
    U.apart(t, Wx[:, -1:], .25)
    kw = dict(ssq_freqs=U.freqs(fk, R), flipud=flip, gamma=.25,
              scales=U.scales('log', R)[0])
    compare(t, 'asc', Wx, w if two else None, None if two else dWx, None, kw,
            'float64')


WAVS = dict(gmw={}, morlet={}, bump={}, cmhat={}, hhhat={})
WSETS = [('gmw', {}), ('gmw', dict(norm='energy', dtype='float64')),
         ('gmw', dict(order=1)), ('gmw', dict(order=2)),
         ('gmw', dict(order=1, norm='energy')),
         ('gmw', dict(centered_scale=True)), ('morlet', {}), ('bump', {}),
         ('cmhat', {}), ('hhhat', {}), ('bump', dict(om=.1)),
         ('cmhat', dict(mu=2., s=1.5)), ('morlet', dict(mu=1.5)),
         ('hhhat', dict(mu=1.))]


@harness(lambda tier: [dict(wav=w, opts=o, dt=dt) for w, o in WSETS
                       for dt in ('float64', 'float32')
                       if not (dt == 'float32' and 'energy' in o.values())
                       if tier != 'quick' or dt == 'float64' or not o])
def wavelets(t, wav, opts, dt):
    """Wavelet functions evaluated on the device, any frequencies."""
    # (ranges keep the functions' values, and so the rounding of their
    # coefficients, moderate)
    hi = 3. if opts or wav == 'hhhat' else 12.
    w = np.concatenate([t.real('w', (2,), lo=.01, hi=hi),
                        t.real('v', (1,), lo=-3., hi=-.01), [0.]])
    wav = (wav, dict(opts, dtype=dt))
    W = t.mod('wavelets').Wavelet
    with U.env(SSQ_GPU='0', SSQ_PARALLEL='0'):
        a = W(wav).fn(w.astype(dt))
    with G.gpu(t):
        o = W(wav)
        b = o.fn(G.tensor(t, w).to(dtype=G._DTS[dt]))
        t.true(isinstance(b, G.Tensor), 'the result stays on the device')
        t.true(dt[-2:] == '64' or b.dtype.name in ('float32', 'complex64'),
               'precision of the wavelet')
        b = G.host(b)
    if dt == 'float64':
        # (in float32 the constants of the two formulas are rounded apart)
        t.close(b, a, tol(dt), 'GPU wavelet equals CPU wavelet')
        t.obs('b', b)


def cfgc(tier):
    out = []
    for N, B in ((4, 0), (5, 0), (4, 2)):
        for wav in ('gmw', 'morlet', 'bump'):
            for kw in (dict(), dict(vectorized=False), dict(derivative=True, fs=2.),
                       dict(derivative=True, vectorized=False, fs=.5),
                       dict(padtype=None), dict(padtype='wrap'),
                       dict(rpadded=True), dict(l1_norm=False),
                       dict(l1_norm=False, derivative=True),
                       dict(order=(0, 1)), dict(order=1, derivative=True)):
                if 'order' in kw and wav != 'gmw':
                    continue
                if tier == 'quick' and ((wav != 'gmw' and kw and N != 5) or
                                        (wav == 'bump' and len(kw) > 1)):
                    continue
                if kw.get('l1_norm') is False and wav == 'bump':
                    continue
                out.append(dict(N=N, B=B, wav=wav, kw=kw))
    return out


@harness(cfgc)
def transform(t, N, B, wav, kw):
    """The whole CWT on the device."""
    x = t.real('x', (B, N) if B else (N,))
    s = U.scales('log', 3)[0]
    cwt = t.mod('_cwt').cwt
    wv = (wav, dict(dtype='float64'))
    if kw.get('l1_norm') is False and wav == 'gmw':
        wv = (wav, dict(dtype='float64', norm='energy'))
    with U.env(SSQ_GPU='0', SSQ_PARALLEL='0'):
        a = cwt(x.copy(), wv, scales=s.copy(), **kw)
    with G.gpu(t):
        b = cwt(x.copy(), wv, scales=s.copy(), **kw)
        t.true(isinstance(b[0], G.Tensor), 'the result stays on the device')
        t.true(b[0].is_contiguous(), 'result contiguous (kernels need it)')
        c = cwt(G.tensor(t, x), wv, scales=s.copy(), astensor=False, **kw) \
            if kw.get('padtype') != 'wrap' else b
    for i, nm in enumerate(('transform', 'scales', 'derivative')[:len(a)]):
        t.close(G.host(b[i]), a[i], 1e-6, 'GPU %s equals CPU' % nm)
        t.true(kw.get('padtype') == 'wrap' or isinstance(c[i], np.ndarray),
               'arrays returned with astensor=False')
        t.close(G.host(c[i]), a[i], 1e-6, 'GPU %s of a tensor equals CPU' % nm)


@harness(lambda tier: [dict(N=N, B=B, n_fft=n, hop=h, mod=m, der=d)
                       for N, B in ((5, 0), (4, 2)) for n in (3, 4)
                       for h in (1, 2) for m in (True, False) for d in (True, False)
                       if tier != 'quick' or (h == 1 or n == 4) and (d or not B)])
def frames(t, N, B, n_fft, hop, mod, der):
    """The whole STFT on the device."""
    x = t.real('x', (B, N) if B else (N,))
    win = np.array([.3, 1., .8, .2])[:n_fft]
    stft = t.mod('_stft').stft
    kw = dict(window=win, n_fft=n_fft, hop_len=hop, modulated=mod, derivative=der,
              fs=2., dtype='float64')
    with U.env(SSQ_GPU='0', SSQ_PARALLEL='0'):
        a = stft(x.copy(), **kw)
    with G.gpu(t, 'overlap'):
        b = stft(x.copy(), **kw)
    for u, v in zip(a if der else (a,), b if der else (b,)):
        t.true(isinstance(v, G.Tensor), 'the result stays on the device')
        t.close(G.host(v), u, 1e-6, 'GPU STFT equals CPU STFT')
        t.true(v.is_contiguous(), 'result contiguous (kernels need it)')


def whole_cfgs(tier):
    out = []
    k = 0
    for tr, fk in (('cwt', 'log'), ('cwt', 'linear'), ('stft', None)):
        for gw in (False, True):
            for gd in (False, True):
                for pt in (None, True):
                    for ten in (True, False):
                        k += 1
                        if tier == 'quick' and (k + k // 4) % (4 if fk == 'log'
                                                               else 2):
                            continue
                        out.append(dict(tr=tr, fk=fk, gw=gw, gd=gd, preserve=pt,
                                        tensors=ten, sq=('inplace', 'sum', 'abs')[k % 3],
                                        fs=(1., 4.)[k // 2 % 2],
                                        flip=bool(k // 4 % 2)))
    return out


@harness(whole_cfgs, hints=lambda c: [float(c['fs'] * v) for v in
                                      (.125, .18, .2, .25, .3, .4, .5)])
def whole(t, tr, fk, gw, gd, preserve, tensors, sq, fs, flip):
    """ssq_cwt / ssq_stft on the device, any transform and derivative."""
    R, g, N = (4 if fk == 'log' else 3), .25, (8 if tr == 'cwt' else 4)
    W, D = t.cplx('Wx', (R, 1)), t.cplx('dWx', (R, 1))
    U.apart(t, W, g)
    z = t.np.zeros((R, N - 1)) + 0j
    W = t.np.concatenate([W, z], axis=1)
    D = t.np.concatenate([D, z], axis=1)
    x = np.arange(N) * .1
    kw = dict(flipud=flip, squeezing=SQ.get(sq, triple), gamma=g, fs=fs, get_w=gw, get_dWx=gd,
              preserve_transform=preserve)
    sc = U.scales('log', R)[0]

    def call(conv, **k):
        a, b = conv(W), conv(D)
        if tr == 'cwt':
            m = t.mod('_ssq_cwt')
            with U.patched(m, cwt=U.fake_cwt(a, b, conv(sc))):
                return m.ssq_cwt(x, 'gmw', scales=sc.copy(), ssq_freqs=fk,
                                 maprange='maximal', **kw, **k)
        m = t.mod('_ssq_stft')
        with U.patched(m, stft=U.fake_stft(a, b)):
            return m.ssq_stft(x, **kw, **k)

    with U.env(SSQ_GPU='0', SSQ_PARALLEL='0'):
        o0 = call(t.copy)
    with G.gpu(t):
        o1 = call(lambda a: G.tensor(t, a), astensor=tensors)
    t.eqs(len(o1), len(o0), 'same outputs')
    t.close(o0[1], W, 1e-9, 'the transform is returned as computed')
    names = ['Tx', 'transform', 'frequencies', 'scales'] + ['w'] * gw + ['dWx'] * gd
    for i, nm in enumerate(names):
        if nm in ('Tx', 'transform', 'w', 'dWx'):
            t.true(isinstance(o1[i], G.Tensor) == tensors,
                   '%s: a tensor exactly if requested' % nm)
        else:
            t.true(tensors or isinstance(o1[i], np.ndarray),
                   '%s: an array if requested' % nm)
        if nm == 'transform' and not preserve:
            continue                    # documented: may be overwritten
        a, b = G.host(o1[i]), o0[i]
        t.eqs(tuple(a.shape), tuple(b.shape), 'shape of ' + nm)
        t.close(a, b, 1e-6, 'GPU %s equals CPU' % nm)
    t.obs('T', G.host(o1[0]))
