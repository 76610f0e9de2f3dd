# -*- coding: utf-8 -*-
"""C16: scales and synchrosqueezing frequencies are well-formed."""
import numpy as np
from symx.api import harness
from harness import util as U

BOUNDS = ('any scale range with 1 <= min < 2.3, ratio up to 2**1.6 (2**2.2), nv 1..7, every '
          'down-sampling position; any positive frequency range, 2..9 frequencies; scale '
          'layouts of 3..40 entries at any overall magnitude')
ASSUMPTIONS = ['ceil/floor arguments at least 1e-9 away from integers, or exactly on them',
               'center frequencies and down-sampling position are arbitrary stand-ins']


def mk_cfgs(tier):
    out = []
    for st in ('log', 'linear', 'log-piecewise'):
        for nv in ((1, 2, 3, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 7)):
            if st == 'log-piecewise':
                for ds in (2, 3, 4):
                    out.append(dict(st=st, nv=nv, ds=ds))
            else:
                out.append(dict(st=st, nv=nv, ds=None))
    return out


@harness(mk_cfgs, max_paths=3000, budget=400)
def make_scales(t, st, nv, ds):
    m = t.mod('utils.cwt_utils')
    top = 1.6 if t.tier == 'quick' else 2.2
    u = t.real('u', (), 0., 1.2)            # log2 of the minimum
    v = t.real('v', (), .05, top)           # log2 of the ratio
    for q in (u, v):                        # float rounding of floor / ceil
        for k in range(0, 4 * nv):
            t.assume((q * nv <= k - 1e-9) | (q * nv >= k + 1e-9))
    lo, hi = 2. ** u, 2. ** (u + v)
    kw = dict(min_scale=lo, max_scale=hi, nv=nv)
    idx = None
    calls = []
    if st == 'log-piecewise':
        pick = t.integer('pick', -1, 5)
        p = int(pick)
        idx = None if p < 0 else p + 1

        def fds(wavelet, scales, *a, **k):
            calls.append(np.asarray(scales, dtype=float).ravel())
            return idx if idx is None or idx < len(scales) else None
        kw.update(wavelet=t.mod('wavelets').Wavelet('gmw'), downsample=ds)
    else:
        fds = None
    ctx = U.patched(m, find_downsampling_scale=fds) if fds else U.env()
    with ctx:
        s = m.make_scales(64, scaletype=st, **kw)
    t.eqs(tuple(np.shape(s))[1:], (1,), 'column of scales')
    s = np.asarray(s, dtype=float).ravel()
    full = s
    if st == 'log-piecewise':
        full = calls[0]
        if idx is not None and idx < len(full):
            e = np.hstack([full[:idx], full[idx + ds - 1::ds]])
        else:
            e = full
        t.close(s, e, 1e-12, 'every `downsample`-th scale past the transition')
    t.true(bool(np.all(s > 0)), 'positive')
    t.true(bool(np.all(np.diff(s) > 0)), 'strictly increasing')
    if st == 'linear':
        # end points: as for log, inclusive of the one past the last
        k = np.log2(full[[0, -1]]) * nv
        n = len(full)
        t.close(np.diff(full), np.full(n - 1, (full[-1] - full[0]) / max(1, n - 1)),
                1e-9, 'uniform')
        if n > 1:
            na = int(round(k[1] - k[0]))
            t.eqs(n, int(np.ceil(full[-1] / full[0] - 1e-12)),
                  'documented number of linear scales')
        else:
            na = None
    else:
        k = np.log2(full) * nv
        t.close(np.diff(k), np.ones(len(k) - 1), 1e-9, 'nv scales per octave')
        na = len(full)
    t.close(k[0], np.round(k[0]), 1e-9, 'on the 2**(integer / nv) grid')
    k0 = int(np.round(k[0]))
    t.true((u * nv >= k0 - 1e-8) & (u * nv < k0 + 1 + 1e-8),
           'starts at the grid scale at or just below the minimum')
    if na is not None:
        t.true((v * nv <= na + 1e-8) & (v * nv > na - 1 - 1e-8),
               'as many scales as needed to span the range')
    t.obs('s0', s[0])
    t.obs('n', len(s))


def inf_cfgs(tier):
    out = []
    for kind in ('log', 'linear', 'log-piecewise'):
        for R in (3, 4, 5, 7, 12, 40):
            for d in ((1, 2, 3, 4, 8, 16, 32) if kind != 'linear' else
                      (.05, .3, 1., 2.5)):
                if kind == 'log-piecewise' and (R < 5 or R > 4 * d) or \
                        kind == 'log' and R > 12 * d:
                    continue
                out.append(dict(kind=kind, R=R, d=d))
    if tier == 'quick':
        out = [c for i, c in enumerate(out) if i % 3 == 0 or c['R'] in (3, 7)]
    return out


@harness(inf_cfgs)
def infer(t, kind, R, d):
    """The layout and its density are recognised, at any magnitude."""
    m = t.mod('utils.cwt_utils')
    s0 = t.real('s0', (), .5, 64.)
    col = R % 2 == 0
    nvs = None
    if kind == 'log':
        mul = 2. ** (np.arange(R) / d)
    elif kind == 'linear':
        mul = 1 + d * np.arange(R)
    for idx in ([None] if kind != 'log-piecewise' else
                sorted({2, R // 2, R - 2})):
        if idx is not None:
            ds = 2 + idx % 3
            e = np.hstack([np.arange(idx) / d,
                           (idx - 1 + ds * np.arange(1, R - idx + 1)) / d])
            mul = 2. ** e
            nvs = np.hstack([np.full(idx, d), np.full(R - idx, d / ds)])
        s = s0 * mul
        if col:
            s = s.reshape(-1, 1)
        st, nv = m.infer_scaletype(s)
        t.eqs(st, kind, 'layout recognised')
        if kind == 'log':
            t.eqs(int(nv), d, 'nv recognised')
        elif kind == 'linear':
            t.eqs(nv, None, 'linear scales have no nv')
        else:
            t.close(np.ravel(nv) if not t.sym else t.np.ravel(nv), nvs, 1e-6,
                    'nv recognised on both sides of the transition')
            t.eqs(int(m.logscale_transition_idx(s)), idx, 'transition found')
        ps, st2, na, nv2 = m.process_scales(s, 64, get_params=True)
        t.eqs(st2, kind, 'process_scales agrees')
        t.eqs(na, R, 'number of scales')
        t.eqs(tuple(ps.shape), (R, 1), 'column')
        t.close(ps.reshape(-1), s.reshape(-1), 1e-12, 'array scales pass unchanged')


@harness(lambda tier: [dict(kind=k) for k in ('two transitions', 'jitter', 'quadratic')])
def infer_rejects(t, kind):
    m = t.mod('utils.cwt_utils')
    s0 = t.real('s0', (), .5, 64.)
    for R in (6, 9, 15):
        if kind == 'two transitions':
            k = R // 3
            e = np.cumsum(np.hstack([np.full(k, .1), np.full(k, .25),
                                     np.full(R - 2 * k, .6)]))
            mul = 2 ** e
        elif kind == 'jitter':
            mul = 2 ** (np.arange(R) / 4. + .02 * np.sin(7. * np.arange(R) ** 2))
        else:
            mul = 1 + np.arange(R) ** 2. / 8
        t.raises(ValueError, lambda: m.infer_scaletype(s0 * mul),
                 'irregular scales are rejected')


def fq_cfgs(tier):
    out = []
    for st in ('log', 'linear', 'log-piecewise'):
        for na in ((2, 3, 5, 9) if st != 'log-piecewise' else (5, 6, 8, 9)):
            for mr in ('tuple', 'maximal', 'peak', 'energy'):
                if st == 'log-piecewise' and mr in ('tuple', 'maximal'):
                    continue
                out.append(dict(st=st, na=na, mr=mr))
    out += [dict(st='stft', na=n, mr='stft') for n in (2, 3, 6)]
    return out


@harness(fq_cfgs, xtol=1e-6)
def frequencies(t, st, na, mr):
    """Labels follow the layout and span exactly the requested range."""
    m = t.mod('ssqueezing')
    pw = st == 'log-piecewise'
    dt = 2. ** t.real('log2_dt', (), -30., 30.) if pw else t.real('dt', (), .01, 10.)
    N = 37
    tr = 'cwt'
    for idx in (sorted({2, na // 2, na - 2}) if pw else [None]):
        if pw:
            e = np.hstack([np.arange(idx) / 8., (idx - 1 + 3 * np.arange(
                1, na - idx + 1)) / 8.])
            scales = 2. * 2 ** e
        else:
            scales = 2. * 2 ** (np.arange(na) / 4.)
        if mr == 'stft':
            tr, scales, maprange = 'stft', np.arange(na) / 7., 'maximal'
            fm, fM = 0., t.div(.5, dt)
        elif mr == 'tuple':
            fm = t.real('fm%s' % idx, (), .1, 2.)
            fM = fm * t.real('q%s' % idx, (), 1.5, 9.)
            maprange = (fm, fM)
        elif mr == 'maximal':
            maprange = mr
            fm, fM = t.div(1., dt * N), t.div(.5, dt)
        else:
            maprange = mr
        seen = []
        if mr in ('peak', 'energy'):
            if pw:
                c = t.real('c%s' % idx, (), .1, 3.)
                w = [t.div(c, float(scales[q])) for q in (-1, idx, 0)]
            else:
                w = t.real('wc%s' % idx, (3,), .01, 3.)
                t.assume(w[0] * 1.2 < w[2])
            at = {float(scales[-1]): w[0], float(scales[0]): w[2]}
            if pw:
                at[float(scales[idx])] = w[1]
            f = {k: t.div(v, 2 * np.pi * dt) for k, v in at.items()}
            fm, fM = f[float(scales[-1])], f[float(scales[0])]

            def cf(wavelet, N=None, scale=None, kind=None, force_int=None, **k):
                seen.append((float(np.ravel(scale)[0]), N, kind, force_int))
                return at[float(np.ravel(scale)[0])]
            ctx = lambda: U.patched(m, center_frequency=cf)
        else:
            ctx = U.env
        for padded in (True, False):
            with ctx():
                fr = m._compute_associated_frequencies(
                    scales.reshape(-1, 1), N, 'wav',
                    'linear' if mr == 'stft' else st, maprange, padded, dt, tr)
            if mr in ('peak', 'energy'):
                for s, n, k, fi in seen:
                    t.eqs(k, mr, 'requested kind of center frequency')
                    t.eqs(int(n), 64 if padded else 37, 'length wavelets are sampled at')
                seen.clear()
            t.eqs(tuple(fr.shape), (na,), 'one label per row')
            rel = t.div(1., fM)
            L = lambda v: t.np.log2(v)
            if st in ('linear', 'stft'):
                t.close(fr[0] * rel, fm * rel, 1e-6, 'starts at the lowest frequency')
                t.close(fr[na - 1] * rel, 1., 1e-6, 'ends at the highest frequency')
            else:
                t.close(L(fr[0]), L(fm), 1e-6, 'starts at the lowest frequency')
                t.close(L(fr[na - 1]), L(fM), 1e-6, 'ends at the highest frequency')
            if st in ('linear', 'stft'):
                for k in range(na):
                    t.close(fr[k] * rel, fm * rel + (1. - fm * rel) * (k / (na - 1)),
                            1e-6, 'linear spacing')
            elif not pw:
                for k in range(na):
                    t.close(L(fr[k]), L(fm) + (L(fM) - L(fm)) * (k / (na - 1)), 1e-6,
                            'log spacing')
            else:
                n1 = na - idx          # row of the transition frequency
                f1 = f[float(scales[idx])]
                j = n1 - 1
                # n1 - 1 intervals to the frequency at the transition scale, then
                # idx to the highest
                for k in range(na):
                    if k <= j:
                        e = L(fm) + (L(f1) - L(fm)) * (k / max(1, j))
                    else:
                        e = L(f1) + (L(fM) - L(f1)) * ((k - j) / (na - 1 - j))
                    t.close(L(fr[k]), e, 1e-6, 'log spacing on both sides')
    t.obs('fr', fr)

