# -*- coding: utf-8 -*-
"""C18: calls leave inputs and global state alone and are repeatable."""
import copy
import os
import numpy as np
from symx.api import harness
from harness import util as U

BOUNDS = ('every public transform, inverse and helper on arbitrary signals of 4-6 samples '
          'and transforms of 3-4 rows x 3-4 columns; every history: call, one '
          'intervening call out of 10 kinds (other length, other scales, cached '
          'sampling, failing call, ...), the same call again')
ASSUMPTIONS = ['in-place helpers (replace_*, zero_denormals, `out=`) are C22 / C08',
               'wavelet constants and generated scales: concrete quadrature, memoised']
SC = 2. * 2 ** (np.arange(3) / 4.)
FQ = np.array([.05, .1, .2])


class World:
    """Lazily created inputs, each remembered as created."""

    def __init__(self, t):
        self.t, self.v, self.snap = t, {}, {}

    def own(self, name, v):
        self.v[name] = v
        self.snap[name] = self.t.copy(v) if isinstance(v, np.ndarray) else \
            copy.deepcopy(v)
        return v

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = self.__dict__['v']
        if name in v:
            return v[name]
        t = self.t
        if name == 'wav':
            v[name] = t.mod('wavelets').Wavelet(
                ('gmw', dict(gamma=3., beta=6., dtype='float64')), N=6)
            return v[name]
        mk = {
            'x': lambda: t.real('x', (5,)), 'x2': lambda: t.real('x2', (2, 4)),
            'x6': lambda: t.real('x6', (6,)),
            'W': lambda: t.cplx('W', (3, 4)), 'D': lambda: t.cplx('D', (3, 4)),
            'w': lambda: free_w(t),
            'S': lambda: t.cplx('S', (3, 6)), 'A': lambda: t.cplx('A', (2, 8)),
            'T': lambda: t.cplx('T', (3, 4)),
            'win': lambda: t.const(np.array([.3, .9, 1., .6])),
            'sc': lambda: t.const(SC), 'sc2': lambda: t.const(SC * 1.3),
            'sc6': lambda: t.const(2. * 2 ** (np.arange(6) / 4.)),
            'fq': lambda: t.const(FQ), 'sfs': lambda: t.const(np.linspace(0, .5, 3)),
            'tv': lambda: t.const(2. + .5 * np.arange(5)),
            'tv4': lambda: t.const(2. + .5 * np.arange(4)),
            'opts': lambda: {'gamma': 3., 'beta': 6., 'dtype': 'float64'},
            'order': lambda: [0, 2], 'rng': lambda: [.06, .3],
            'cc': lambda: t.const(np.array([[0, 1], [1, 2], [1, 1], [2, 2]])),
            'cw': lambda: t.const(np.array([[1, 0], [0, 1], [1, 1], [0, 0]])),
            'mu': lambda: t.real('mu', (2,)), 'W2': lambda: t.cplx('W2', (2, 3, 4)),
        }[name]
        return self.own(name, mk())

    def check(self, msg):
        for k, v in list(self.v.items()):
            if k == 'wav':
                continue
            if isinstance(v, np.ndarray):
                s = self.snap[k]
                self.t.eqs(tuple(v.shape), tuple(s.shape), msg + ': ' + k)
                if k == 'w':
                    for p, q in zip(v.ravel(), s.ravel()):
                        self.t.true(p == q, msg + ': ' + k)
                else:
                    self.t.close(v, s, 0., msg + ': ' + k)
            else:
                self.t.eqs(v, self.snap[k], msg + ': ' + k)


def free_w(t):
    w = t.const(np.array([[.06, .11, np.inf, .3], [.02, .15, .4, .08],
                          [.19, .07, .12, np.inf]]))
    w[1, 1], w[0, 3] = t.ereal('w0', (), .01, .4), t.ereal('w1', (), .01, .4)
    return w


def wcfg(d):
    return ('gmw', d.opts)


def ssqc(t, d, **kw):
    """ssq_cwt around an arbitrary transform."""
    def fake(x, *a, derivative=False, **k):
        s = SC.reshape(-1, 1)
        return (d.W.copy(), s, d.D.copy()) if derivative else (d.W.copy(), s)
    with U.patched(t.mod('_ssq_cwt'), cwt=fake):
        return t.mod('').ssq_cwt(t.const(np.zeros(4)), d.wav, scales=d.sc,
                                 gamma=.1, maprange='maximal', **kw)


def ssqs(t, d, **kw):
    def fake(x, *a, derivative=False, **k):
        return (d.W.copy(), d.D.copy()) if derivative else d.W.copy()
    with U.patched(t.mod('_ssq_stft'), stft=fake):
        return t.mod('').ssq_stft(t.const(np.zeros(4)), gamma=.1, **kw)


def table(t, d):
    m = t.mod('')
    u = t.mod('utils.common')
    su = t.mod('utils.stft_utils')
    al = t.mod('algos')
    ex = t.mod('experimental')
    cu = t.mod('utils.cwt_utils')
    FF = t.mod('utils.fft_utils')
    wl = t.mod('wavelets')
    K = t.mod('_ssq_cwt')
    return {
        'cwt': lambda: m.cwt(d.x, d.wav, scales=d.sc, derivative=True, t=d.tv),
        'cwt-loop': lambda: m.cwt(d.x, d.wav, scales=d.sc, vectorized=False,
                                  derivative=True, cache_wavelet=False),
        'cwt-l2': lambda: m.cwt(d.x, wcfg(d), scales=d.sc, l1_norm=False,
                                derivative=True, cache_wavelet=False),
        'cwt-nopad': lambda: m.cwt(d.x, d.wav, scales=d.sc, padtype=None,
                                   derivative=True),
        'cwt-wrap': lambda: m.cwt(d.x, d.wav, scales=d.sc, padtype='wrap',
                                  rpadded=True, nan_checks=True),
        'cwt-uncached': lambda: m.cwt(d.x, d.wav, scales=d.sc, cache_wavelet=False),
        'cwt2': lambda: m.cwt(d.x2, d.wav, scales=d.sc, derivative=True, t=d.tv4,
                              l1_norm=True),
        'cwt-order': lambda: m.cwt(d.x, wcfg(d), scales=d.sc, order=d.order,
                                   average=True, derivative=True,
                                   cache_wavelet=False),
        'cwt-list': lambda: m.cwt(d.x, wcfg(d), scales=d.sc, order=d.order,
                                  average=False, cache_wavelet=False),
        'cwt-order-obj': lambda: m.cwt(d.x, d.wav, scales=d.sc, order=d.order,
                                       average=False, cache_wavelet=False),
        'cwt-patience': lambda: m.cwt(d.x, d.wav, scales=d.sc, patience=(0, 3.)),
        'icwt': lambda: m.icwt(d.W, d.wav, scales=d.sc, x_mean=.25),
        'icwt-l2': lambda: m.icwt(d.W, wcfg(d), scales=d.sc, l1_norm=False),
        'icwt-batch': lambda: m.icwt(d.W2, d.wav, scales=d.sc, x_mean=d.mu),
        'icwt-2int': lambda: m.icwt(d.W, d.wav, scales=d.sc, one_int=False,
                                    x_len=4, padtype='reflect'),
        'stft': lambda: m.stft(d.x, window=d.win, n_fft=4, derivative=True, t=d.tv,
                               dtype='float64'),
        'stft-pad': lambda: m.stft(d.x2, window=d.win, n_fft=6, hop_len=2,
                                   padtype='zero', modulated=False, dtype='float64'),
        'istft': lambda: m.istft(d.S, window=d.win, n_fft=4),
        'istft-mod': lambda: m.istft(d.S, window=d.win, n_fft=4, modulated=False,
                                     N=6, win_exp=2),
        'ssqueeze': lambda: m.ssqueeze(d.W, d.w, ssq_freqs=d.fq, scales=d.sc),
        'ssqueeze-lebesgue': lambda: m.ssqueeze(d.W, d.w, ssq_freqs=d.fq,
                                                scales=d.sc, squeezing='lebesgue'),
        'ssqueeze-abs': lambda: m.ssqueeze(d.W, d.w, ssq_freqs=d.fq, scales=d.sc,
                                           squeezing='abs', flipud=True),
        'ssqueeze-fast': lambda: m.ssqueeze(d.W, None, ssq_freqs=d.fq, scales=d.sc,
                                            dWx=d.D, gamma=.1),
        'ssqueeze-range': lambda: m.ssqueeze(d.W, d.w, ssq_freqs='linear',
                                             scales=d.sc, maprange=d.rng,
                                             wavelet=d.wav),
        'ssqueeze-stft': lambda: m.ssqueeze(d.W, None, ssq_freqs=d.sfs, Sfs=d.sfs,
                                            dWx=d.D, gamma=.1, transform='stft'),
        'ssq_cwt': lambda: ssqc(t, d, ssq_freqs=d.fq, preserve_transform=True),
        'ssq_cwt-w': lambda: ssqc(t, d, ssq_freqs=d.fq, get_w=True, get_dWx=True),
        'ssq_cwt-leb': lambda: ssqc(t, d, ssq_freqs='linear', squeezing='lebesgue'),
        'ssq_stft': lambda: ssqs(t, d, ssq_freqs=d.sfs, get_dWx=True),
        'ssq_stft-w': lambda: ssqs(t, d, get_w=True, squeezing='abs'),
        'issq_cwt': lambda: m.issq_cwt(d.T, d.wav),
        'issq_cwt-cc': lambda: m.issq_cwt(d.T, wcfg(d), cc=d.cc, cw=d.cw),
        'issq_stft': lambda: m.issq_stft(d.T, window=d.win, n_fft=4),
        'issq_stft-cc': lambda: m.issq_stft(d.T, window=d.win, n_fft=4, cc=d.cc,
                                            cw=d.cw),
        'phase_cwt': lambda: K.phase_cwt(d.W, d.D, gamma=.1),
        'phase_cwt-num': lambda: K.phase_cwt_num(d.A, .5, gamma=.1),
        'phase_stft': lambda: t.mod('_ssq_stft').phase_stft(d.W, d.D, d.sfs,
                                                            gamma=.1),
        'phase_transform': lambda: ex.phase_transform(d.W, d.D, gamma=.1),
        'phase_ssqueeze': lambda: ex.phase_ssqueeze(
            d.W, d.D, ssq_freqs=d.fq, scales=d.sc, gamma=.1, get_w=True,
            wavelet=d.wav),
        'trigdiff': lambda: u.trigdiff(d.A, 2.),
        'trigdiff-pad': lambda: u.trigdiff(d.W, padtype='reflect'),
        'padsignal': lambda: tuple(u.padsignal(d.x, p) for p in (
            'reflect', 'symmetric', 'replicate', 'wrap', 'zero')),
        'buffer': lambda: su.buffer(d.x, 4, 2),
        'buffer-mod': lambda: su.buffer(d.x6, 4, 3, modulated=True),
        'unbuffer': lambda: su.unbuffer(d.x2.T, d.win, 2, 4, 4),
        'window_norm': lambda: su.window_norm(d.win, 2, 4, 6, 2),
        'get_window': lambda: t.mod('_stft').get_window(d.win, 4, 6, derivative=True),
        'find_closest': lambda: tuple(
            al.find_closest(d.w, d.fq, logscale=ls, smart=s) for ls, s in
            ((True, None), (False, None), (False, True))),
        'indexed_sum': lambda: al.indexed_sum(d.W, t.const(
            np.arange(12).reshape(3, 4) % 3)),
        'onfly': lambda: al.indexed_sum_onfly(d.W, d.w, d.fq, const=d.sc,
                                              logscale=True),
        'fast': lambda: al.ssqueeze_fast(d.W, d.D, d.fq, const=d.sc, gamma=.1,
                                         logscale=True),
        'fft': lambda: (FF.fft(d.x), FF.ifft(d.A), FF.rfft(d.x6), FF.irfft(d.A),
                        FF.fftshift(d.x), FF.ifftshift(d.x)),
        'afftshift': lambda: (wl.afftshift(d.x), wl.aifftshift(d.x),
                              wl.afftshift(d.x6), wl.aifftshift(d.x6)),
        'Psih': lambda: (t.copy(d.wav.Psih(scale=d.sc, N=8)), d.wav(scale=d.sc, N=7),
                         d.wav.psifn(scale=d.sc, N=6), d.wav.xifn(d.sc, 5)),
        'process_scales': lambda: (
            cu.process_scales(d.sc, 6, d.wav), cu.nv_from_scales(
                d.sc6.reshape(-1, 1)),
            cu.infer_scaletype(d.sc)[0] == 'log'),
        'convert': lambda: (ex.scale_to_freq(d.sc, d.wav, 64),
                            ex.freq_to_scale(d.fq, d.wav, 64)),
        'widths': lambda: (su.window_resolution(d.win), su.window_area(d.win)),
    }


APIS = ('cwt', 'cwt-loop', 'cwt-l2', 'cwt-nopad', 'cwt-wrap', 'cwt-uncached', 'cwt2',
        'cwt-order', 'cwt-list', 'cwt-order-obj', 'cwt-patience', 'icwt', 'icwt-l2',
        'icwt-batch', 'icwt-2int', 'stft', 'stft-pad', 'istft', 'istft-mod', 'ssqueeze', 'ssqueeze-lebesgue',
        'ssqueeze-abs', 'ssqueeze-fast', 'ssqueeze-range', 'ssqueeze-stft', 'ssq_cwt',
        'ssq_cwt-w', 'ssq_cwt-leb', 'ssq_stft', 'ssq_stft-w', 'issq_cwt',
        'issq_cwt-cc', 'issq_stft', 'issq_stft-cc', 'phase_cwt', 'phase_cwt-num',
        'phase_stft', 'phase_transform', 'phase_ssqueeze', 'trigdiff', 'trigdiff-pad',
        'padsignal', 'buffer', 'buffer-mod', 'unbuffer', 'window_norm', 'get_window',
        'find_closest', 'indexed_sum', 'onfly', 'fast', 'fft', 'afftshift', 'Psih',
        'process_scales', 'convert', 'widths')


def between(t, d, kind):
    """Something else happening between two identical calls."""
    m = t.mod('')
    if kind == 'length':        # other length, other scales, derivative
        m.cwt(d.x6, d.wav, scales=d.sc2, derivative=True, fs=3.)
    elif kind == 'same-scales':     # other length, the same scales
        m.cwt(d.x6, d.wav, scales=d.sc)
    elif kind == 'same-length':     # other scales, the same length
        m.cwt(d.x[:5], d.wav, scales=d.sc2, padtype='zero')
    elif kind == 'sample':
        d.wav.Psih(scale=d.sc, N=8, nohalf=True)
    elif kind == 'sample2':
        d.wav.Psih(scale=d.sc2, N=8, nohalf=False)
        m.cwt(d.x6, d.wav, scales=d.sc2, patience=(0, 9.))
    elif kind == 'calls':
        m.stft(d.x6, window='hann', n_fft=5, win_len=4, fs=3.)
        m.icwt(d.W[:, :3], d.wav, scales=d.sc2)
        u = t.mod('utils.common')
        u.padsignal(d.x6, 'wrap')
    elif kind == 'fail':        # a rejected call
        for kw in (dict(patience=-5), dict(padtype='nothing'),
                   dict(fs=-1.), dict(scales='nothing')):
            try:
                m.cwt(d.x6, d.wav, **dict(dict(scales=d.sc2), **kw))
            except Exception:
                pass
    elif kind == 'env':         # settings changed and set back
        with U.env(SSQ_PARALLEL='0'):
            m.cwt(d.x6, d.wav, scales=d.sc2)
    elif kind == 'edit':        # the caller edits its scales in place
        d.sc *= 1.3
        W = m.cwt(d.x, d.wav, scales=d.sc)[0]
        V = m.cwt(d.x, t.mod('wavelets').Wavelet(
            ('gmw', dict(gamma=3., beta=6., dtype='float64'))), scales=SC * 1.3)[0]
        t.close(W, V, 1e-9, 'scales as they are at the time of the call')
        d.sc[:] = SC
    elif kind == 'caller':      # the caller overwrites what it was given
        W, s = m.cwt(d.x6, d.wav, scales=d.sc)
        W[:] = W * 3. + 1.
        s = t.mod('wavelets').Wavelet.xifn(d.wav, d.sc, 8)
        s[:] = s * 0.


KINDS = ('length', 'same-scales', 'same-length', 'sample', 'sample2', 'calls', 'fail',
         'env', 'caller', 'edit')
HEAVY = ('cwt', 'Psih', 'icwt', 'ssq_cwt', 'issq_cwt', 'ssqueeze-range', 'process',
         'convert')


def flat(o):
    if isinstance(o, (tuple, list)):
        return [q for v in o for q in flat(v)]
    return [o]


def state(t, d):
    G = t.mod('utils.fft_utils').FFT_GLOBAL
    return (d.wav.N, tuple(float(v) for v in d.wav.xi), d.wav.dtype,
            repr(sorted(d.wav.config.items())), G.patience, G.planning_timelimit,
            dict(os.environ), copy.deepcopy(t.mod('configs').GDEFAULTS),
            dict(np.geterr()))


def cfgs(tier):
    out = []
    for i, a in enumerate(APIS):
        heavy = a.split('-')[0] in HEAVY or a in HEAVY
        ks = list(KINDS)
        if tier == 'quick' and a == 'convert':
            ks = ['length', 'sample', 'fail']
        elif tier == 'quick' and not heavy:
            ks = [KINDS[(i + 2 * j) % 10] for j in range(3)]
        for j, k in enumerate(KINDS):       # two intervening calls
            for l in KINDS:
                if tier != 'quick' and heavy or a in ('cwt', 'cwt2', 'Psih') and (
                        KINDS.index(l) + j) % 4 == i % 4:
                    ks.append(k + '+' + l)
        for k in sorted(set(ks)):
            out.append(dict(api=a, kind=k))
    return out


def sane(t, a, d):
    """Keep away from the boundaries where the result is a jump."""
    if a in ('ssqueeze-fast', 'ssqueeze-stft', 'ssq_cwt', 'ssq_stft', 'fast',
             'phase_ssqueeze') or a[:4] == 'ssq_':
        # phase transform of one arbitrary entry, the others fixed
        W = np.array([[1j ** (i + j) * (1. + .1 * i) for j in range(4)]
                      for i in range(3)])
        D = .9 * W * 1j * (1 + np.arange(3)[:, None]) ** .5
        W, D = t.const(W), t.const(D)
        D[1, 1] = t.cplx('d', (), bound=4.)
        d.own('W', W)
        d.own('D', D)


@harness(cfgs, xtol=1e-6)
def repeat(t, api, kind):
    """The same call gives the same result whatever came in between; arguments,
    the wavelet object and global settings are as before; results handed out
    earlier are not overwritten; a fresh wavelet object gives the same."""
    d = World(t)
    sane(t, api, d)
    f = table(t, d)[api]
    with U.memo(t):
        s0 = state(t, d)
        a = flat(f())
        d.check('argument not modified')
        t.eqs(state(t, d) == s0, True, 'wavelet and global settings as before')
        a0 = [t.copy(v) if isinstance(v, np.ndarray) else v for v in a]
        for k in kind.split('+'):
            between(t, d, k)
        d.check('argument not modified (%s)' % kind)
        t.eqs(state(t, d) == s0, True, 'settings as before (%s)' % kind)
        same(t, a, a0, 'earlier result not overwritten')
        b = flat(f())
        same(t, b, a0, 'same result when called again')
        d.check('argument not modified by the second call')
        t.eqs(state(t, d) == s0, True, 'settings as before (second call)')
        if d.v.pop('wav', None) is not None:
            same(t, flat(f()), a0, 'same result with a fresh wavelet')


def same(t, a, b, msg):
    t.eqs(len(a), len(b), msg)
    for p, q in zip(a, b):
        if isinstance(q, np.ndarray):
            t.eqs(tuple(p.shape), tuple(q.shape), msg)
            if p.dtype != q.dtype:
                t.eqs(str(p.dtype), str(q.dtype), msg)
            t.close(p, q, 1e-9, msg)
        elif isinstance(q, (bool, str, int)) or q is None:
            t.eqs(p, q, msg)
        else:
            t.close(p, q, 1e-9, msg)


def custom(w):
    return w * w / (1 + w ** 4) * (w > 0)


@harness(lambda tier: [dict(op=o, N=n) for o in ('A', 'B', 'E', 'AE', 'N', 'ABA', 'P', 'C', 'L', 'F')
                       for n in (4, 6)], xtol=1e-4)
def scales_history(t, op, N):
    """Transforms at arbitrary scales do not depend on scales used before."""
    m = t.mod('')
    x = t.const(np.cos(1.3 * np.arange(N) + .4))
    y = t.const(np.sin(.7 * np.arange(N + 1) + .4))
    A, B = t.real('A', (2,), .1, 8.), t.real('B', (2,), .1, 8.)
    if not bool(t.boolean('shared')):
        t.assume(abs(A[0] - B[0]) > .001)
    else:
        B = t.np.array([A[0], B[1]])
        t.assume(abs(A[1] - B[1]) > .001)
    A0, B0 = t.copy(A), t.copy(B)
    wav = t.mod('wavelets').Wavelet(custom, N=5)

    def tr(*a, scales, **kw):       # (classification of scales: C16)
        with U.patched(t.mod('_cwt'),
                       process_scales=lambda s, *p, **k: s.reshape(-1, 1)):
            return m.cwt(*a, scales=scales, **kw)

    def run(w, v, s):
        W, _, D = tr(v, w, scales=s, derivative=True, padtype='zero')
        return t.np.stack([W, D])
    a = run(wav, x, A)
    a0 = t.copy(a)
    for o in op:
        if o in 'AB':
            run(wav, x, dict(A=A, B=B)[o])
        elif o == 'N':
            run(wav, y, A)
        elif o == 'E':          # the caller edits its own array
            A[0] = A[0] + .05
            t.close(run(wav, x, A), run(t.mod('wavelets').Wavelet(custom), x, A),
                    1e-9, 'scales as they are at the time of the call')
            A[0] = A0[0]
        elif o == 'P':
            wav.Psih(scale=B, N=8)
        elif o == 'C':
            wav.Psih(scale=A, N=8, nohalf=True)
        elif o == 'L':
            tr(x, wav, scales=B, vectorized=False, cache_wavelet=False)
        elif o == 'F':
            t.raises(Exception, lambda: tr(y, wav, scales=B, patience=-4),
                     'invalid patience rejected')
    t.eqs(wav.N, 5, 'length of the wavelet object as before')
    t.close(a, a0, 0., 'earlier result not overwritten')
    t.close(run(wav, x, A), a0, 1e-9, 'same call, same result')
    b = run(wav, x, B)
    t.close(b, run(t.mod('wavelets').Wavelet(custom, N=5), x, B), 1e-9,
            'as with a fresh wavelet')
    t.close(A, A0, 0., 'scales not modified')
    t.close(B, B0, 0., 'scales not modified')
