# -*- coding: utf-8 -*-
"""C22: replacement and clean-up helpers touch exactly the matching entries."""
import numpy as np
from symx.api import harness
from harness import util as U

BOUNDS = ('arrays of 1-3 dimensions with 2-8 entries, every entry any finite value in '
          '[-1, 1] (complex for the target array too), +inf, -inf or NaN; replacement '
          'value symbolic; ref given or omitted; serial and parallel kernels')
ASSUMPTIONS = []
SHAPES = [(3,), (2, 2), (1, 3), (2, 1, 2), (2, 2, 2), (1, 1, 1)]
FNS = ('replace_at_inf', 'replace_at_nan', 'replace_at_inf_or_nan',
       'replace_at_value')


def cfgs(tier):
    out = []
    for fn in FNS:
        for sh in SHAPES + ([(3, 3), (2, 3, 2), (6,)] if tier != 'quick' else []):
            for ref in (False, True):
                out.append(dict(fn=fn, shape=list(sh), ref=ref))
    return out


@harness(cfgs)
def replace(t, fn, shape, ref):
    shape = tuple(shape)
    f = getattr(t.mod('algos'), fn)
    rep = t.real('rep', (), -5., 5.)
    src = t.ereal('r', shape, -1., 1., ninf=True, nan=True)
    if ref:
        x = t.cplx('x', shape)
        x0, s0 = t.copy(x), t.copy(src)
        args, kw = (x, src), {}
    else:
        x, x0, s0 = src, t.copy(src), t.copy(src)
        args, kw = (x,), {}
    kw['replacement'] = rep if t.sym else float(rep)
    if fn == 'replace_at_value':
        val = t.real('val', (), -1., 1.)
        kw['value'] = val if t.sym else float(val)
    out = f(*args, **kw)
    t.eqs(tuple(out.shape), shape, 'shape preserved')
    if ref:
        t.close(src, s0, 1e-12, 'reference untouched')
    for i in np.ndindex(*shape):
        inf, nan = t.np.isinf(s0[i]), t.np.isnan(s0[i])
        hit = {'replace_at_inf': inf, 'replace_at_nan': nan,
               'replace_at_inf_or_nan': inf | nan}.get(fn)
        if hit is None:
            hit = (s0[i] == val) & ~inf & ~nan
        t.close(out[i], t.ite(hit, rep, x0[i]), 1e-12,
                'exactly the matching entries are replaced')
    t.obs('out', out)


@harness(lambda tier: [dict(v=v, ref=ref) for v in ('inf', '-inf')
                       for ref in (False, True)])
def value_inf(t, v, ref):
    """replace_at_value distinguishes +inf from -inf."""
    x = t.ereal('r', (4,), -1., 1., ninf=True, nan=True)
    x0 = t.copy(x)
    tgt = t.real('x', (4,)) if ref else x
    t0 = t.copy(tgt)
    a = (tgt, x) if ref else (tgt,)
    out = t.mod('algos').replace_at_value(*a, value=float(v), replacement=7.)
    for i in range(4):
        big = (x0[i] > 0) if v == 'inf' else (x0[i] < 0)
        t.close(out[i], t.ite(t.np.isinf(x0[i]) & big, 7., t0[i]), 1e-12,
                'exactly the entries equal to %s' % v)


def ua_cfgs(tier):
    return [dict(par=p, shape=list(s), kind=k) for p in (None, False, True)
            for s in ((1, 3), (2, 2), (3, 1)) for k in ('c', 'r')]


@harness(ua_cfgs)
def under_abs(t, par, shape, kind):
    shape = tuple(shape)
    a = t.mod('algos')
    ref = t.cplx('ref', shape) if kind == 'c' else t.real('ref', shape)
    x = t.ereal('x', shape, -1., 1., nan=True)
    v = t.real('v', (), .1, .9)
    rep = t.real('rep', (), -3., 3.)
    for e in ref.ravel():
        # (a real entry may be exactly at the threshold: it's kept)
        if kind == 'c':
            m = e.real ** 2 + e.imag ** 2
            t.assume((m > v * v + 1e-6) | (m < v * v - 1e-6))
    x0, r0 = t.copy(x), t.copy(ref)
    a.replace_under_abs(x, ref, v if t.sym else float(v),
                        rep if t.sym else float(rep), parallel=par)
    t.close(ref, r0, 1e-12, 'reference untouched')
    for i in np.ndindex(*shape):
        e = r0[i]
        lt = (e.real ** 2 + e.imag ** 2 < v * v if kind == 'c' else abs(e) < v)
        t.close(x[i], t.ite(lt, rep, x0[i]), 1e-12,
                'exactly the entries below the threshold are replaced')
    t.obs('x', x)


@harness(lambda tier: [dict(par=p, shape=list(s), env=e) for p, e in
                       ((False, None), (True, None), (None, '0'), (None, '1'))
                       for s in ((3,), (2, 2), (2, 1, 2))])
def denormals(t, par, shape, env):
    """zero_denormals(x): |x| < 1000 * tiny -> 0, everything else kept."""
    shape = tuple(shape)
    tiny = 1000 * 2.2250738585072014e-308
    u = t.real('u', shape, -2., 2.)
    x = u * (tiny * 1.5)
    for v in u.ravel():
        t.assume((abs(v) > .6667) | (abs(v) < .6666))
    x0 = t.copy(x)
    with U.env(SSQ_PARALLEL=env):
        t.mod('algos').zero_denormals(x, **({} if par is None else
                                            dict(parallel=par)))
    # compared in units of the threshold
    for i in np.ndindex(*shape):
        lo = abs(u[i]) < .66665
        t.close(x[i] * 1e150 * 1e150, t.ite(lo, 0., x0[i] * 1e150 * 1e150), 1e-9,
                'denormal entries are cleared, others kept')
        t.true(~lo | (x[i] == 0), 'cleared to exactly zero')
        t.true(lo | (x[i] == x0[i]), 'others kept exactly')
