# -*- coding: utf-8 -*-
"""C23: configured defaults apply exactly to omitted arguments."""
import builtins
import contextlib
import io
import os
import numpy as np
from symx.api import harness
from harness import util as U
from harness import schedlib as S
from harness.wavform import formula_of

BOUNDS = ('every subset of passed / omitted arguments of the configured functions, '
          'shipped and altered configurations, arbitrary explicit values; every '
          'sequence of 2 settings of SSQ_PARALLEL (unset, 0, 1) and SSQ_GPU (unset, 0, '
          '1) with the configured parallel flag 0/1 and every explicit `parallel`')
ASSUMPTIONS = ['the configuration file is read through Python file objects']


@contextlib.contextmanager
def ini(text):
    """Serve `text` as the package's configs.ini."""
    real = builtins.open

    def fake(f, *a, **k):
        if isinstance(f, (str, os.PathLike)) and \
                os.path.basename(os.fspath(f)) == 'configs.ini':
            return io.StringIO(text)
        return real(f, *a, **k)
    builtins.open = io.open = fake
    try:
        yield
    finally:
        builtins.open = io.open = real


def shipped(t):
    """Independent reading of the shipped configuration."""
    p = os.path.join(os.path.dirname(t.mod('').__file__), 'configs.ini')
    out, mod, obj = {}, None, None
    for ln in io.open(p).read().split('#### END')[0].splitlines():
        ln = ln.strip()
        if ln.startswith('## '):
            mod = ln[3:]
        elif ln.startswith('# '):
            obj = ln[2:]
            out[mod + '.' + obj] = {}
        elif ln:
            k, v = [q.strip() for q in ln.split('=')]
            v = v.strip('"').strip("'")
            try:
                v = float(v)
            except ValueError:
                v = dict([('None', None), ('True', True),
                          ('False', False)]).get(v, v)
            out[mod + '.' + obj][k] = v
    return out


def text(**sect):
    """configs.ini text from {'module.obj': {key: literal}}."""
    out, last = [], None
    for name, kv in sect.items():
        m, o = name.rsplit('.', 1)
        if m != last:
            out.append('## ' + m)
            last = m
        out.append('# ' + o)
        out += ['%s=%s' % q for q in kv.items()] + ['']
    return '\n'.join(out + ['', '#### END', '## nothing', '# here', 'a=9'])


CONF = {'mod.one': dict(a='1.5', b="'name'", c='True', e='None'),
        'mod.two': dict(a='-3'), 'pkg.sub.three': dict(a='2e-3', z='False')}
VAL = {'mod.one': dict(a=1.5, b='name', c=True, e=None),
       'mod.two': dict(a=-3.), 'pkg.sub.three': dict(a=.002, z=False)}


@harness(lambda tier: [dict(name=n, get_all=g, order=o) for n in (
    'mod.one', 'mod.two', 'pkg.sub.three', 'mod.none', 'no.one')
    for g in (False, True) for o in (False, True)], max_paths=4000)
def fill(t, name, get_all, order):
    keys = ['d', 'c', 'a', 'b']
    x = [t.real('x%d' % i, (), -2., 2.) for i in range(4)]
    kw = {}
    for i, k in enumerate(keys):
        if not t.boolean('given%d' % i):
            kw[k] = None
        else:
            kw[k] = x[i]
    if t.boolean('drop'):
        kw.pop('a')
    want = dict(kw)
    conf = VAL.get(name, {})
    for k in want:
        if want[k] is None:
            want[k] = conf.get(k)
    if get_all:
        for k, v in conf.items():
            want.setdefault(k, v)
    with ini(text(**CONF)):
        out = t.mod('configs').gdefaults(name, get_all=get_all, as_dict=True,
                                         default_order=order, **kw)
        vals = t.mod('configs').gdefaults(name, get_all=get_all, as_dict=False,
                                          default_order=order, **kw)
    t.eqs(sorted(out), sorted(want), 'exactly the arguments asked for')
    vals = list(vals) if len(out) > 1 else [vals]
    t.eqs(len(vals), len(out), 'values of the same arguments')
    ks = [k for k in kw]
    if order:
        ks = [k for k in conf if k in want] + [k for k in kw if k not in conf]
    if name in VAL:
        t.eqs(list(out)[:len(ks)], ks, 'documented order')
    for q, (k, v) in zip(vals, out.items()):
        w = want[k]
        for r in (v, q):
            if isinstance(w, (str, bool, type(None))):
                t.true(type(r) is type(w) and r == w,
                       'omitted argument gets the configured value')
            elif kw.get(k) is None:
                t.true(r == w, 'omitted argument gets the configured value')
            else:
                t.close(r, w, 1e-12, 'explicit argument wins')


ALT = {'wavelets.morlet': dict(mu='4.5', dtype='float64'),
       'wavelets.bump': dict(mu='2', s='1.25', om='0', dtype='float64'),
       'wavelets.cmhat': dict(mu='.5', s='1.5', dtype='float64'),
       'wavelets.hhhat': dict(mu='1', dtype='float64'),
       '_gmw.gmw': dict(gamma='2', beta='6', norm='energy', order='1',
                        centered_scale='True', dtype='float64'),
       'configs.IS_PARALLEL': dict(parallel='1')}
EXPL = {'morlet': dict(mu=2.5), 'bump': dict(mu=1.5, s=2., om=.25),
        'cmhat': dict(mu=.25, s=2.), 'hhhat': dict(mu=.5),
        'gmw': dict(gamma=2.5, beta=4., norm='bandpass', order=2,
                    centered_scale=False)}


def wav_cfgs(tier):
    out = []
    for nm in EXPL:
        n = len(EXPL[nm])
        for alt in (False, True):
            for via in ('fn', 'Wavelet'):
                if nm != 'gmw':
                    out.append(dict(nm=nm, alt=alt, via=via, mask=None))
                else:
                    ms = range(2 ** n) if tier != 'quick' else (
                        0, 1, 2, 4, 8, 16, 31, 11, 21, 30)
                    out += [dict(nm=nm, alt=alt, via=via, mask=q) for q in ms]
    return out


@harness(wav_cfgs, max_paths=4000, xtol=1e-6)
def wavelets(t, nm, alt, via, mask):
    """Parameters of each wavelet: explicit ones win, omitted are configured."""
    sec = ('_gmw.' if nm == 'gmw' else 'wavelets.') + nm
    kw = {}
    for i, (k, v) in enumerate(EXPL[nm].items()):
        if bool(t.boolean('g_' + k)) if mask is None else mask >> i & 1:
            kw[k] = v
    if alt:
        conf = {k: (float(v) if v[0] in '0123456789.' else v)
                for k, v in ALT[sec].items()}
    else:
        conf = shipped(t)[sec]
    eff = {k: kw.get(k, conf[k]) for k in EXPL[nm]}
    if nm == 'gmw':
        eff['centered_scale'] = eff['centered_scale'] in (True, 'True')
        eff['order'] = int(eff['order'])
    w = t.real('w', (1,), .3, 1.3) if nm == 'gmw' else \
        t.real('w', (1,), eff['mu'] + .05, eff['mu'] + .9 * eff.get('s', 1.))
    with contextlib.ExitStack() as st:
        if alt:
            st.enter_context(ini(text(**ALT)))
        m = t.mod('_gmw' if nm == 'gmw' else 'wavelets')
        if via == 'fn':
            kk = dict(kw) if alt else dict(kw, dtype='float64')
            p = getattr(m, nm)(**kk)(w)
        else:
            kk = dict(kw, dtype='float64')
            wv = t.mod('wavelets').Wavelet((nm, kk))
            p = wv(w, imag_th=None)
            for k in EXPL[nm]:
                t.true(wv.config[k] == eff[k], 'reported configuration')
    t.close(p[0], formula_of(t, nm, w[0], eff), 1e-6,
            'explicit parameters win, omitted ones are the configured ones')


@harness(lambda tier: [dict(dt=d, alt=a) for d in (None, 'float32', 'float64')
                       for a in (None, 'float32', 'float64')])
def stft_dtype(t, dt, alt):
    x = t.real('x', (6,))
    with contextlib.ExitStack() as st:
        if alt:
            st.enter_context(ini(text(**{'_stft.stft': dict(dtype=alt),
                                         'configs.IS_PARALLEL': dict(parallel=1)})))
        S_ = t.mod('_stft').stft(x, np.ones(4), n_fft=4, dtype=dt)
    conf = alt or shipped(t)['_stft.stft']['dtype']
    t.eqs(str(np.dtype(S_.dtype)),
          'complex64' if (dt or conf) == 'float32' else 'complex128',
          'explicit dtype wins over the configured one')


@harness(lambda tier: [dict(ds=d, alt=a) for d in (None, 2, 3)
                       for a in (None, '2', '5')])
def downsample(t, ds, alt):
    cu = t.mod('utils.cwt_utils')
    kw = dict(N=512, min_scale=2., max_scale=256., nv=8,
              scaletype='log-piecewise')
    wv = t.mod('wavelets').Wavelet('gmw')
    with U.patched(cu, find_downsampling_scale=lambda *a, **k: 6), \
            contextlib.ExitStack() as st:
        ref = [cu.make_scales(wavelet=wv, downsample=d, **kw) for d in (2, 3, 4, 5)]
        if alt:
            st.enter_context(ini(text(**dict(ALT, **{
                'utils.cwt_utils.make_scales': dict(downsample=alt)}))))
        s = cu.make_scales(wavelet=wv, downsample=ds, **kw)
    d = ds or int(alt or shipped(t)['utils.cwt_utils.make_scales']['downsample'])
    r = ref[(2, 3, 4, 5).index(d)]
    t.eqs(tuple(s.shape), tuple(r.shape), 'configured downsampling')
    t.close(s, r, 1e-9, 'configured downsampling')


ENV = (None, '0', '1', '')


def decide(t, name):
    """Symbolic choice of an environment setting."""
    k = 2 * bool(t.boolean(name + 'a')) + bool(t.boolean(name + 'b'))
    return ENV[k]


@harness(lambda tier: [dict(conf=c) for c in (None, '0', '1')], max_paths=4000)
def override(t, conf):
    """IS_PARALLEL follows the environment and configuration of the moment."""
    c = t.mod('configs')
    for step in range(2):
        e = decide(t, 'e%d' % step)
        with U.env(SSQ_PARALLEL=e), contextlib.ExitStack() as st:
            if conf is not None:
                st.enter_context(ini(text(**dict(ALT, **{
                    'configs.IS_PARALLEL': dict(parallel=conf)}))))
            p = c.IS_PARALLEL()
            q = t.mod('').IS_PARALLEL()
        want = e != '0' and conf != '0'
        t.true(p is want, 'environment overrides the configured flag')
        t.true(q is want, 'public name agrees')


def runs(t):
    al, su = t.mod('algos'), t.mod('utils.stft_utils')
    f = np.array([.25, .5, .75])
    W = np.array([[.5, .25j], [.375, 1.], [-.5, .5 + .5j]])
    d = W[::-1] * .75
    a = np.abs(W) + .125
    x = np.arange(6.) - 2
    k = np.zeros((3, 2), dtype='int64')
    return dict(
        sum=lambda **p: al.indexed_sum(W, k, **p),
        onfly=lambda **p: al.indexed_sum_onfly(W, a, f, 1., **p),
        fused=lambda **p: al.ssqueeze_fast(W, d, f, 1., gamma=.01, **p),
        fused_stft=lambda **p: al.ssqueeze_fast(W, d, f, 1., gamma=.01, Sfs=f,
                                                **p),
        phase_cwt=lambda **p: al.phase_cwt_cpu(W, d, .01, **p),
        phase_stft=lambda **p: al.phase_stft_cpu(W, d, f, .01, **p),
        buffer=lambda **p: su.buffer(x, 3, 1, **p),
        under_abs=lambda **p: al.replace_under_abs(t.copy(a), a, value=.2, **p),
        denormals=lambda **p: al.zero_denormals(t.copy(x), **p),
        phase_api=lambda **p: t.mod('_ssq_cwt').phase_cwt(
            W, d, gamma=.01, **p),
        phase_api_stft=lambda **p: t.mod('_ssq_stft').phase_stft(
            W, d, f, gamma=.01, **p))


NAMES = ('sum', 'onfly', 'fused', 'fused_stft', 'phase_cwt', 'phase_stft',
         'buffer', 'under_abs', 'denormals', 'phase_api', 'phase_api_stft')


@harness(lambda tier: [dict(name=n) for n in NAMES], max_paths=8000)
def kernels(t, name):
    """Multi-threaded kernels run exactly when asked for: by the argument, else by
    the environment at the time of the call."""
    for step in range(2):
        e = decide(t, 'e%d' % step)
        ex = bool(t.boolean('ex%d' % step))
        val = bool(t.boolean('v%d' % step))
        f = runs(t)[name] if step == 0 else f
        with U.env(SSQ_PARALLEL=e), S.schedule(t, 'asc') as s:
            try:
                f(**(dict(parallel=val) if ex else {}))
            except TypeError:
                if not ex:
                    raise
                return          # takes no such argument
        if s.live:
            t.true((s.loops > 0) is (val if ex else e != '0'),
                   'threads are used exactly as requested')


@harness(lambda tier: [dict()], max_paths=4000)
def gpu(t):
    """SSQ_GPU=1 is honoured at the time of the call; without the GPU packages
    it is an error, never a silent CPU run."""
    c, st_ = t.mod('configs'), t.mod('_stft')
    x = t.real('x', (6,))
    for step in range(2):
        e = decide(t, 'e%d' % step)
        fake = bool(t.boolean('have%d' % step))
        stand = object() if fake else None
        with U.env(SSQ_GPU=e), U.patched(c, torch=stand, cupy=stand):
            if e == '1' and not fake:
                t.raises(ValueError, lambda: c.USE_GPU(),
                         'GPU request without GPU packages is rejected')
                t.raises(ValueError, lambda: st_.stft(x, np.ones(4), n_fft=4),
                         'GPU request without GPU packages is rejected')
                t.raises(ValueError, lambda: t.mod('').USE_GPU(),
                         'GPU request without GPU packages is rejected')
            else:
                t.true(c.USE_GPU() is (e == '1'), 'GPU only when asked for')


@harness(lambda tier: [dict()])
def threads(t):
    ff = t.mod('utils.fft_utils')
    import multiprocessing
    n = multiprocessing.cpu_count()
    F = ff.FFT(patience=0)
    for step in range(2):
        e = decide(t, 'e%d' % step)
        with U.env(SSQ_PARALLEL=e):
            t.eqs(F.threads, 1 if e == '0' else n,
                  'FFT threads follow the environment')
    G = ff.FFT(threads=3, patience=0)
    with U.env(SSQ_PARALLEL='0'):
        t.eqs(G.threads, 3, 'explicit thread count wins')
