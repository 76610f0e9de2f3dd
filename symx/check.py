# -*- coding: utf-8 -*-
"""Check runner:  python3-vt /verif/symx/check.py P06 [--tier quick|thorough]"""
import argparse
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
os.environ['SSQ_GPU'] = '0'
os.environ.pop('SSQ_PARALLEL', None)
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(_v, '1')

import numpy as np  # noqa: E402
import z3  # noqa: E402
from symx import api, core, arr, load  # noqa: E402
from symx.core import (Engine, Num, SBool, Violation, as_num, bterm, zand, zor,
                       znot, tobool, Unsupported, Inconclusive)  # noqa: E402

REAL_PY = '/opt/venv/bin/python'


# =================================================================== symbolic T
class TSym(api.TBase):
    sym = True

    def __init__(self, E, runner):
        self.E, self.np, self.R = E, arr.NP, runner
        self.observed = {}
        self.known = []
        self.grp = {}

    # ------------------------------------------------------------ inputs
    def _decl(self, name, kind, shape, lo, hi, extra=None):
        self.R.spec[name] = (kind, tuple(shape) if shape != () else (), lo, hi,
                             extra)

    def _wrap(self, elems, shape, dtype):
        if shape == ():
            return elems[0]
        a = np.empty(len(elems), dtype=object)
        for i, e in enumerate(elems):
            a[i] = e
        return arr.SymArray(a.reshape(shape), dtype)

    def _n(self, shape):
        return int(np.prod(shape)) if shape != () else 1

    def real(self, name, shape=(), lo=-1., hi=1., dtype='float64'):
        shape = (shape,) if isinstance(shape, int) else shape
        self._decl(name, 'r', shape, lo, hi)
        n = self._n(shape)
        es = [self.E.input_real('%s_%d' % (name, i), lo, hi) for i in range(n)]
        self.E.inputs[name] = ('r', shape, [('r', next(iter(e.c))) for e in es])
        return self._wrap(es, shape, dtype)

    def cplx(self, name, shape=(), bound=1., dtype='complex128'):
        shape = (shape,) if isinstance(shape, int) else shape
        self._decl(name, 'c', shape, -bound, bound)
        n = self._n(shape)
        es, data = [], []
        for i in range(n):
            re = self.E.input_real('%s_%d_re' % (name, i), -bound, bound)
            im = self.E.input_real('%s_%d_im' % (name, i), -bound, bound)
            ir, ii = next(iter(re.c)), next(iter(im.c))
            es.append(Num({ir: 1. + 0j, ii: 1j}, True))
            data.append(('c', ir, ii))
        self.E.inputs[name] = ('c', shape, data)
        return self._wrap(es, shape, dtype)

    def ereal(self, name, shape=(), lo=-1., hi=1., dtype='float64', ninf=False,
              nan=False):
        """Real or +inf (optionally -inf / nan)."""
        shape = (shape,) if isinstance(shape, int) else shape
        self._decl(name, 'x', shape, lo, hi)
        n = self._n(shape)
        es, data = [], []
        for i in range(n):
            v = self.E.input_real('%s_%d' % (name, i), lo, hi)
            fp = z3.Bool('%s_%d_inf' % (name, i))
            fn = z3.Bool('%s_%d_ninf' % (name, i)) if ninf else None
            fq = z3.Bool('%s_%d_nan' % (name, i)) if nan else None
            fs = [f for f in (fp, fn, fq) if f is not None]
            if len(fs) > 1:
                self.E.pc.append(z3.AtMost(*fs, 1))
            es.append(Num(v.c, False, False, fp, fn if ninf else False,
                          fq if nan else False))
            data.append(('x', next(iter(v.c)), fp, fn, fq))
        self.E.inputs[name] = ('x', shape, data)
        return self._wrap(es, shape, dtype)

    def boolean(self, name, shape=()):
        shape = (shape,) if isinstance(shape, int) else shape
        self._decl(name, 'b', shape, 0, 1)
        n = self._n(shape)
        bs = [z3.Bool('%s_%d' % (name, i)) for i in range(n)]
        self.E.inputs[name] = ('b', shape, [('b', b) for b in bs])
        return self._wrap([SBool(b) for b in bs], shape, bool)

    def integer(self, name, lo, hi):
        """Symbolic integer (stays symbolic; forks where it must be concrete)."""
        self._decl(name, 'i', (), lo, hi)
        a = self.E.input_real(name + '_0', lo, hi, isint=True)
        self.E.inputs[name] = ('i', (), [('i', next(iter(a.c)))])
        return a

    # ------------------------------------------------------------ properties
    def _conds(self, cond):
        if isinstance(cond, np.ndarray):
            raw = arr.obj(cond).ravel()
            return [bterm(c) for c in raw]
        return [bterm(cond)]

    def assume(self, cond):
        for c in self._conds(cond):
            self.E.assume(core.mkbool(c))

    def true(self, cond, msg, label=''):
        cs = self._conds(cond)
        self._decide([znot(c) for c in cs], msg, label)

    def false(self, msg, label=''):
        self._decide([True], msg, label)

    def eqs(self, a, b, msg, label=''):
        if not (a == b):
            self._decide([True], '%s: %r vs %r' % (msg, a, b), label)

    def raises(self, excs, f, msg, label=''):
        try:
            f()
        except excs:
            return True
        except Unsupported:
            raise
        self._decide([True], msg, label)
        return False

    def copy(self, x):
        return x.copy() if isinstance(x, np.ndarray) else x

    def const(self, x):
        x = np.array(x)
        return arr.SymArray(x.astype(object), x.dtype)

    def ite(self, c, a, b):
        if isinstance(c, np.ndarray):
            return np.where(c, a, b)
        return core.ite(c, a, b)

    def div(self, n, d):
        """n / d where d is known to be nonzero wherever the result matters."""
        n, d = as_num(n), as_num(d)
        assert not (n.special or d.special or n.cplx or d.cplx)
        return self.E._rdiv(Num(n.c), Num(d.c))

    def close(self, a, b, tol, msg, label=''):
        sa, sb = np.shape(arr.obj(a)), np.shape(arr.obj(b))
        if sa != sb:
            self._decide([True], '%s: shape %s vs %s' % (msg, sa, sb), label)
            return
        bad, budget = [], [600]
        for x, y in zip(arr.obj(a).ravel(), arr.obj(b).ravel()):
            if not core.is_sym(x) and not core.is_sym(y):
                x_, y_ = complex(x), complex(y)
                if x_ == y_ or (x_ != x_ and y_ != y_):
                    continue
            x, y = as_num(x), as_num(y)
            if x.special or y.special:
                # flags must agree, values compared where both are finite
                pi, qi = zor(x.pinf, False), zor(y.pinf, False)
                for f, g in zip(x.fl(), y.fl()):
                    d = zor(zand(f, znot(g)), zand(g, znot(f)))
                    if d is not False:
                        bad.append(d)
                fin = znot(zor(*(x.fl() + y.fl())))
            else:
                fin = True
            cx = x.cplx or y.cplx
            parts = (((x.real, y.real), (x.imag, y.imag)) if cx else ((x, y),))
            for p, q in parts:
                if fin is True and self._grouped(p, q, tol):
                    continue
                c = self._exceeds(p, q, tol, budget)
                if c is not False:
                    bad.append(zand(fin, c))
        self._decide(bad, msg, label)

    def _grouped(self, x, y, tol):
        """Sufficient test for |x - y| <= tol on sums of gated atoms: the total
        coefficient of every base atom is decided separately (each a small query);
        False = not decided this way."""
        E = self.E
        d = Num(x.c) - Num(y.c)
        groups, ngate = {}, 0
        for i, v in d.c.items():
            a = E.atoms[i]
            v = complex(v).real
            if i and a.kind == 'gate':
                groups.setdefault(a.info[1], []).append((a.info[0], v))
                ngate += 1
            else:
                groups.setdefault(i, []).append((None, v))
        if ngate == 0 or len(groups) > 64:
            return False
        if ngate < 3 and len(groups) < 2:
            return False
        share = tol / len(groups)
        for b, terms in groups.items():
            if b == 0:
                m = 1.
            else:
                a = E.atoms[b]
                if a.lo is None or a.hi is None:
                    return False
                m = max(abs(a.lo), abs(a.hi), 1e-12)
            lim = share / m
            if sum(abs(v) for _, v in terms) <= lim:
                continue
            key = (lim,) + tuple(sorted((-1 if c is None else c.get_id(), round(v, 15))
                               for c, v in terms))
            r = self.grp.get(key)
            if r is None:
                if all(c is None for c, _ in terms):
                    r = False
                else:
                    f = z3.Sum([core.rv(v) if c is None else
                                z3.If(c, core.rv(v), z3.RealVal(0))
                                for c, v in terms])
                    res, _ = E.solve([z3.Or(f > core.rv(lim), f < -core.rv(lim))],
                                     timeout=20)
                    r = res == z3.unsat
                self.grp[key] = r
            if not r:
                return False
        self.R.nontrivial += 1
        return True

    def _lin(self, c, thr):
        """z3 linear term with rounded coefficients; (terms, const, slack)."""
        E = self.E
        terms, slack, const = [], 0., 0.
        for i, v in c.items():
            v = complex(v).real
            if v == 0:
                continue
            if i == 0:
                const += v
                continue
            at = E.atoms[i]
            lo, hi = at.lo, at.hi
            if lo is None or hi is None:
                terms.append(core.rv(v) * E.zreal(i))
                continue
            m = max(abs(lo), abs(hi))
            if abs(v) * m < thr:
                slack += abs(v) * m
                continue
            q, f = core.rv_r(v)
            slack += abs(f - v) * m
            terms.append(q * E.zreal(i))
        return terms, const, slack

    def _exceeds(self, x, y, tol, budget):
        """|x - y| > tol, with coefficient rounding folded into tol (sound for
        bounded atoms).  Small terms are handed to the solver two-sided, large
        ones after subtraction of the linear normal forms."""
        n = len(x.c) + len(y.c)
        if budget[0] >= n:
            budget[0] -= n
            thr = tol * 1e-5 / max(1, n)
            tx, kx, sx = self._lin(x.c, thr)
            ty, ky, sy = self._lin(y.c, thr)
            if not tx and not ty:
                return abs(kx - ky) > tol - sx - sy
            t = tol - sx - sy
            if t > 0:
                zx = z3.Sum(tx + [core.rv(kx)])
                zy = z3.Sum(ty + [core.rv(ky)])
                return z3.Or(zx - zy > core.rv(t), zy - zx > core.rv(t))
        d = Num(x.c) - Num(y.c)
        if not any(d.c.values()):
            return False
        terms, const, slack = self._lin(d.c, tol * 1e-4 / max(1, len(d.c)))
        t = tol - slack
        if t <= 0:
            raise Inconclusive("tolerance exhausted by coefficient rounding (tol %.3g, slack %.3g, %d terms)" % (tol, slack, len(d.c)))
        if not terms:
            return abs(const) > t
        s = z3.Sum(terms + [core.rv(const)])
        return z3.Or(s > core.rv(t), s < -core.rv(t))

    def _decide(self, bad, msg, label):
        """Solver decides whether any of the `bad` conditions is reachable."""
        E = self.E
        E.stats.checks += 1
        self.R.nontrivial += sum(1 for b in bad if not isinstance(b, bool))
        b = zor(*[bool(q) if isinstance(q, np.bool_) else q for q in bad])
        if b is False:
            # still one query: is the path itself decided (counted as trivial)
            self.R.trivial += 1
            return
        if E.only_path:
            return
        res, model = E.solve([] if b is True else [b])
        if res == z3.unknown:
            raise Inconclusive("solver unknown on: %s" % msg)
        if res == z3.sat:
            raise Violation(msg, E.model_inputs(model), label)

    def obs(self, name, val):
        self.observed[name] = val
        x = self.R.xval
        if x is not None and name in x['obs']:
            exp = dec(x['obs'][name])
            self._xcompare(val, exp, name)
            self.R.xval_n += 1

    def _xcompare(self, val, exp, name):
        ov = arr.obj(val)
        if np.shape(ov) != np.shape(exp):
            raise Violation('XVAL %s: shape %s vs real %s' % (
                name, np.shape(ov), np.shape(exp)), None, '')
        ev, tol = self.E.oracle(), self.R.xtol
        for i in np.ndindex(np.shape(ov)):
            try:
                v = ev.value(ov[i])
            except KeyError as e:
                self.close(val, exp, tol, 'XVAL %s' % name)
                return
            e = complex(exp[i])
            if v != v and e != e:
                continue
            if not (v == e or abs(v - e) <= tol * max(1, abs(e))):
                raise Violation('XVAL %s at %s: model %s, real %s' % (
                    name, i, v, e), None, '')


def dec(d):
    if 'c' in d:
        v = np.array([complex(float(a), float(b)) for a, b in d['c']])
    else:
        v = np.array([float(a) for a in d['r']])
    return v.reshape(d['shape'])


# =================================================================== one job
class JobState:
    def __init__(self):
        self.spec, self.xval, self.xval_n, self.xtol = {}, None, 0, 1e-6
        self.nontrivial = self.trivial = 0


def to_inputs(model):
    return model


def run_job(job):
    """Worker: symbolic run of one (harness, cfg)."""
    prop, hname, cfg, tier, opts = job['prop'], job['harness'], job['cfg'], \
        job['tier'], job['opts']
    h = api.REGISTRY[hname]
    t0 = time.time()
    res = dict(harness=hname, cfg=cfg, status='ok', msg='', inputs=None,
               stats={}, spec={}, wall=0., entered=[], reach=False, opts=opts)
    load.ENTERED.clear()
    E = Engine(timeout_s=opts.get('timeout', 60),
               max_paths=opts.get('max_paths', 5000),
               tie=opts.get('tie', 1e-7),
               hints=(h.opts['hints'](cfg) if callable(h.opts.get('hints'))
                      else opts.get('hints', ())))
    E.only_path = False
    E.fnlink = opts.get('fnlink', True)
    E.fork = opts.get('fork', False)
    E.deadline = t0 + opts.get('budget', 240)
    R = JobState()
    if job.get('xval') is not None:
        R.xval = job['xval']
        R.xtol = opts.get('xtol', 1e-6)
    reach = [False]
    arr._LAST.clear()

    def body():
        arr._LAST.clear()
        t = TSym(E, R)
        t.tier = tier
        if R.xval is not None:
            bind(t, E, R.xval['inputs'])
            E.only_path = True
            E.oracle = Oracle(E, R.xval['inputs'])
        try:
            h.fn(t, **cfg)
        except (Unsupported, Inconclusive, Violation, core._Abort):
            raise
        except (ValueError, TypeError, IndexError, KeyError, AttributeError,
                AssertionError, ZeroDivisionError, RuntimeError, NameError,
                NotImplementedError, Exception) as e:
            if os.environ.get('SYMX_TB'):
                traceback.print_exc()
            r, m = E.solve([])
            if r == z3.sat:
                v = Violation('unexpected %s: %s' % (type(e).__name__, e),
                              E.model_inputs(m), 'exception')
                v.tb = traceback.format_exc()[-1500:]
                raise v
            if r == z3.unknown:
                raise Inconclusive("exception on undecided path: %r" % e)
            return
        if R.xval is not None:
            reach[0] = True
        if not reach[0]:
            r, m = E.solve([])
            if r == z3.sat:
                reach[0] = True
    rounds = opts.get('refine_rounds', 12)
    for rnd in range(rounds + 1):
        try:
            E.run(body)
            break
        except Violation as v:
            if R.xval is not None:
                if v.inputs and rnd < rounds and refine(E, v.inputs):
                    continue
                res.update(status='xval-mismatch', msg=v.msg)
                break
            ins = v.inputs
            # concrete re-execution of the same source in the stub environment
            ok, why = conc_run(h, cfg, ins, tier)
            res.update(msg=v.msg, label=v.label, inputs=ins, detail=why,
                       tb=getattr(v, 'tb', ''))
            if ok:
                res['status'] = 'violation'
                break
            if not refine(E, ins) or rnd == rounds:
                res['status'] = 'spurious'
                break
        except Inconclusive as e:
            res.update(status='inconclusive', msg=str(e))
            break
        except Unsupported as e:
            res.update(status='unsupported', msg=str(e),
                       tb=traceback.format_exc()[-3000:])
            break
        except Exception as e:
            res.update(status='error', msg=repr(e),
                       tb=traceback.format_exc()[-3000:])
            break
    if res['status'] == 'ok' and not reach[0]:
        res.update(status='vacuous', msg='no feasible path reaches the end')
    res['stats'] = E.stats.asdict()
    res['stats'].update(nontrivial=R.nontrivial, trivial=R.trivial,
                        xval=R.xval_n)
    res['spec'] = R.spec
    res['entered'] = sorted(load.ENTERED)
    res['wall'] = time.time() - t0
    return res


def bind(t, E, inputs):
    """Fix declared inputs to concrete values (translator validation)."""
    def eqr(i, v):
        E.pc.append(E.zreal(i) == core.rv(v))
    orig_real, orig_c, orig_x, orig_b, orig_i = (t.real, t.cplx, t.ereal,
                                                 t.boolean, t.integer)

    def real(name, *a, **k):
        r = orig_real(name, *a, **k)
        for d, v in zip(E.inputs[name][2], inputs[name]['vals']):
            eqr(d[1], v)
        return r

    def cplx(name, *a, **k):
        r = orig_c(name, *a, **k)
        for d, v in zip(E.inputs[name][2], inputs[name]['vals']):
            eqr(d[1], v[0])
            eqr(d[2], v[1])
        return r

    def ereal(name, *a, **k):
        r = orig_x(name, *a, **k)
        for d, v in zip(E.inputs[name][2], inputs[name]['vals']):
            E.pc.append(d[2] if v == 'inf' else z3.Not(d[2]))
            for f, s in ((d[3], '-inf'), (d[4], 'nan')):
                if f is not None:
                    E.pc.append(f if v == s else z3.Not(f))
            if not isinstance(v, str):
                eqr(d[1], v)
        return r

    def boolean(name, *a, **k):
        r = orig_b(name, *a, **k)
        for d, v in zip(E.inputs[name][2], inputs[name]['vals']):
            E.pc.append(d[1] if v else z3.Not(d[1]))
        return r

    def integer(name, *a, **k):
        r = orig_i(name, *a, **k)
        eqr(E.inputs[name][2][0][1], inputs[name]['vals'][0])
        return r
    t.real, t.cplx, t.ereal, t.boolean, t.integer = (real, cplx, ereal, boolean,
                                                     integer)


def conc_run(h, cfg, inputs, tier):
    """True if the property also fails concretely on the python source."""
    t = api.TConc(inputs)
    t.tier = tier
    t.real_build = False
    try:
        with np.errstate(all='ignore'):
            h.fn(t, **cfg)
    except api.AssumeFailed:
        return False, 'assumption not met after rounding'
    except Exception as e:
        return True, 'raises %s: %s' % (type(e).__name__, e)
    if t.fails:
        return True, '; '.join('%s (%s)' % (m, d) for m, l, d in t.fails[:3])
    return False, 'property holds concretely'


def refine(E, inputs):
    """Add tangent points for purified functions at the spurious model."""
    added = False
    ev = Evaluator(E, inputs)
    for a in E.atoms[1:]:
        if a.kind == 'fn':
            x = ev.num(a.info[1])
            if x is None or not math.isfinite(x):
                continue
            pts = E.refine.setdefault(a.info[0], [])
            if not any(abs(p - x) <= 1e-12 * max(1, abs(x)) for p in pts):
                d = 1e-10 * max(abs(x), 1e-3)
                pts += [x - d, x, x + d]
                added = True
    return added


class Evaluator:
    """Floating-point value of atoms at concrete inputs."""

    def __init__(self, E, inputs):
        self.E, self.vals, self.sub = E, {0: 1.}, {}
        self.byid = None
        for nm, (kind, shape, data) in E.inputs.items():
            for d, v in zip(data, inputs[nm]['vals']):
                if d[0] in 'ri':
                    self.vals[d[1]] = v
                elif d[0] == 'c':
                    self.vals[d[1]], self.vals[d[2]] = v
                elif d[0] == 'x':
                    self.vals[d[1]] = v if not isinstance(v, str) else 0.
                    for f, q in zip(d[2:], ('inf', '-inf', 'nan')):
                        if f is not None:
                            self.sub[f.get_id()] = z3.BoolVal(v == q)
                elif d[0] == 'b':
                    self.sub[d[1].get_id()] = z3.BoolVal(bool(v))

    def value(self, x):
        """Complex value of a scalar (flags included)."""
        if isinstance(x, core.SBool):
            return complex(self.cond(x.b))
        if not isinstance(x, Num):
            return complex(x)
        for f, v in zip(x.fl(), (math.inf, -math.inf, math.nan)):
            if self.cond(f if f is not None else False):
                return complex(v)
        if x.cplx:
            return complex(self._num(x.real), self._num(x.imag))
        return complex(self._num(x))

    def num(self, m):
        try:
            return sum(complex(v).real * self.at(i) for i, v in m.c.items())
        except (KeyError, ValueError, OverflowError, ZeroDivisionError):
            return None

    def _num(self, m):
        r = self.num(m)
        if r is None:
            raise KeyError('undetermined')
        return r

    def cond(self, c):
        if isinstance(c, bool):
            return c
        if self.byid is None or self.nat != len(self.E.atoms):
            self.nat = len(self.E.atoms)
            self.byid = {a.z.get_id(): a for a in self.E.atoms if a.z is not None}
        pairs, seen, st = [], set(), [c]
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                v = self.sub.get(e.get_id())
                if v is None:
                    a = self.byid[e.get_id()]
                    x = self.at(a.idx)
                    v = z3.IntVal(int(round(x))) if a.isint else core.rv(x)
                pairs.append((e, v))
            else:
                st.extend(e.children())
        r = z3.simplify(z3.substitute(c, *pairs))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        raise KeyError('undetermined condition')

    def at(self, i):
        if i in self.vals:
            return self.vals[i]
        a = self.E.atoms[i]
        if a.kind == 'mono':
            r = 1.
            for f in a.info:
                r *= self.at(f)
        elif a.kind == 'gate':
            r = self.at(a.info[1]) if self.cond(a.info[0]) else 0.
        elif a.kind == 'div':
            d = self._num(a.info[1])
            r = self._num(a.info[0]) / d if d else math.nan
        elif a.kind == 'min':
            r = min(self._num(m) for m in a.info)
        elif a.kind == 'sqrt':
            r = math.sqrt(max(self._num(a.info), 0))
        elif a.kind == 'floor':
            r = math.floor(self._num(a.info))
        elif a.kind == 'rint':
            r = float(np.rint(self._num(a.info)))
        elif a.kind == 'fn':
            r = self.E.FN[a.info[0]][0](self._num(a.info[1]))
        else:
            raise KeyError(a.kind)
        if r != r:
            raise KeyError('nan')
        self.vals[i] = r
        return r


class Oracle:
    """Evaluator rebuilt whenever inputs were declared since."""

    def __init__(self, E, inputs):
        self.E, self.inputs, self.n, self.ev = E, inputs, -1, None

    def __call__(self):
        n = len(self.E.inputs)
        if n != self.n:
            self.ev, self.n = Evaluator(self.E, self.inputs), n
        return self.ev

    def decide(self, c):
        try:
            return self().cond(c)
        except KeyError:
            return None


# =================================================================== real build
class RealEnv:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='symx_')

    def env(self, **extra):
        e = dict(os.environ)
        e.update(PYTHONPYCACHEPREFIX=self.dir + '/pyc',
                 NUMBA_CACHE_DIR=self.dir + '/nb', MPLCONFIGDIR=self.dir + '/mpl',
                 MPLBACKEND='Agg', SSQ_GPU='0', PYTHONPATH=load.REPO,
                 HOME=self.dir, OMP_NUM_THREADS='4', NUMBA_NUM_THREADS='4')
        e.pop('SSQ_PARALLEL', None)
        e.update(extra)
        return e

    def run(self, jobs, timeout=240, **extra):
        if not jobs:
            return []
        fd, p = tempfile.mkstemp(suffix='.json', dir=self.dir)
        os.close(fd)
        json.dump(jobs, open(p, 'w'))
        out = p + '.out'
        try:
            pr = subprocess.run([REAL_PY, os.path.join(VERIF, 'symx', 'replay.py'),
                                 p, out], env=self.env(**extra), timeout=timeout,
                                cwd=self.dir, stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT)
            rc, tail = pr.returncode, pr.stdout.decode(errors='replace')[-1500:]
        except subprocess.TimeoutExpired:
            rc, tail = 'timeout', ''
        res = []
        for q in (out, out + '.tmp'):
            if os.path.exists(q):
                try:
                    res = json.load(open(q))
                    break
                except ValueError:
                    pass
        if len(res) < len(jobs):
            # the first unfinished job is the one that ended the process
            res += [dict(fails=[], exc='PROCESS rc=%s %s' % (rc, tail),
                         assume=False, obs={}, crashed=True)]
            res += [dict(fails=[], exc=None, assume=True, obs={})
                    ] * (len(jobs) - len(res))
        return res

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                # "label=<label> <description>"
                lab = rest.split(' ', 1)[0]
                assert lab.startswith('label='), line
                out.append((lab[6:], line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--cfg', default=None)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-xval', action='store_true')
    ap.add_argument('--strict', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rng = np.random.default_rng(seed)
    prop = a.prop
    load.load()
    hm = importlib.import_module('harness.' + prop.lower())
    jobs = []
    for name, h in api.REGISTRY.items():
        if a.only and a.only not in name:
            continue
        for cfg in h.configs(a.tier):
            if a.cfg and a.cfg not in json.dumps(cfg):
                continue
            jobs.append(dict(prop=prop, harness=name, cfg=cfg, tier=a.tier,
                             opts={k: v for k, v in h.opts.items()
                                   if not callable(v)}))
    env = RealEnv()
    rc = 2
    try:
        rc = drive(a, prop, hm, jobs, env, rng, seed, t0)
    finally:
        env.close()
    sys.stdout.flush()
    sys.exit(rc)


def pool_map(jobs, nproc):
    if nproc <= 1 or len(jobs) <= 1:
        return [run_job(j) for j in jobs]
    ctx = mp.get_context('fork')
    out, viol, done = [], 0, set()
    with ctx.Pool(min(nproc, len(jobs)), maxtasksperchild=None) as p:
        it = p.imap_unordered(_indexed, list(enumerate(jobs)), chunksize=1)
        while len(out) < len(jobs):
            try:
                k, r = it.next(timeout=max(1, DEADLINE[0] - time.time()))
            except mp.TimeoutError:
                for k, j in enumerate(jobs):
                    if k not in done:
                        out.append((k, dict(
                            harness=j['harness'], cfg=j['cfg'], spec={},
                            status='inconclusive', msg='check time limit',
                            inputs=None, stats={}, entered=[], wall=0.)))
                break
            done.add(k)
            out.append((k, r))
            if VERBOSE[0]:
                show(r)
            viol += r['status'] == 'violation'
            if viol >= 8:       # enough counterexamples
                break
        p.terminate()
    return [r for k, r in sorted(out, key=lambda q: q[0])]


DEADLINE = [time.time() + 780]
VERBOSE = [False]


def _indexed(kj):
    return kj[0], run_job(kj[1])


def show(r):
    print('%-14s %6.2fs paths=%d q=%d %s %s %s' % (
        r['status'], r['wall'], r['stats'].get('paths', 0),
        r['stats'].get('queries', 0), r['harness'], json.dumps(r['cfg']),
        r['msg'][:300]), flush=True)
    if r.get('tb') and r['status'] != 'ok':
        print(r['tb'], flush=True)


def drive(a, prop, hm, jobs, env, rng, seed, t0):
    VERBOSE[0] = a.v
    if a.tier != 'quick':
        DEADLINE[0] = t0 + 6 * 3600
    results = pool_map(jobs, a.jobs)
    VERBOSE[0] = False
    bad = [r for r in results if r['status'] not in ('ok',)]
    errors, violations, knowns = [], [], []
    replays = 0
    cand = [r for r in bad if r['status'] in ('violation', 'spurious')]
    errors += [r for r in bad if r['status'] not in ('violation', 'spurious')]
    known = known_findings(prop)
    if cand:
        # replay on the real build (numba), then with bounds checks / no jit
        cand = cand[:24] if len(cand) > 24 else cand
        rj = [dict(prop=prop, harness=r['harness'], cfg=r['cfg'],
                   inputs=r['inputs'], tier=a.tier) for r in cand]
        modes = [{}, dict(NUMBA_BOUNDSCHECK='1', NUMBA_CACHE_DIR=env.dir +
                          '/nb2'), dict(NUMBA_DISABLE_JIT='1')]
        pend = list(range(len(cand)))
        for m in modes:
            if not pend:
                break
            outs = env.run([rj[i] for i in pend], **m)
            replays += len(pend)
            nxt = []
            for i, o in zip(pend, outs):
                if o['fails'] or (o['exc'] and
                                  not o['exc'].startswith('HARNESS') and
                                  not o['assume'] and
                                  'NUMBA_DISABLE_JIT' not in m):
                    cand[i]['replay_out'] = o
                    cand[i]['replay_env'] = m
                    violations.append(cand[i])
                else:
                    cand[i]['replay_out'] = o
                    nxt.append(i)
            pend = nxt
        for i in pend:
            cand[i]['status'] = 'not-reproduced'
            cand[i]['msg'] += ' inputs=%s' % json.dumps(cand[i]['inputs'])
            errors.append(cand[i])
    new = []
    for v in violations:
        labels = [f[1] for f in v['replay_out']['fails'] if f[1]] + \
            [v.get('label') or '']
        hit = [line for lab, line in known
               if lab and v['replay_out']['fails'] and
               all(f[1] == lab for f in v['replay_out']['fails'])]
        if hit:
            knowns.append(hit[0])
        else:
            new.append(v)
    # ------------------------------------------------ translator validation
    xv = dict(runs=0, comparisons=0)
    notes = []
    if not a.no_xval and not new:
        for v in cross_validate(a, prop, results, env, rng, xv):
            if v['status'] != 'xval':
                notes.append(v)
                continue
            fl = v['replay_out']['fails']
            hit = [line for lab, line in known
                   if fl and all(f[1] == lab for f in fl)]
            if hit:
                knowns.append(hit[0])
            else:
                new.append(v)
    if not a.strict:
        # an undecided configuration is reported, not turned into a verdict
        if len(errors) * 2 <= len(results):
            notes, errors = notes + errors, []
    for line in sorted(set(knowns)):
        print(line)
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for k, v in enumerate(new[:5]):
        path = os.path.join(rdir, '%s_%d.json' % (prop, k))
        json.dump(dict(prop=prop, harness=v['harness'], cfg=v['cfg'],
                       inputs=v['inputs'], msg=v['msg'],
                       fails=v['replay_out']['fails'],
                       exc=v['replay_out']['exc'],
                       how='put this object in a JSON list in jobs.json and run: '
                           'PYTHONPATH=/repo /opt/venv/bin/python '
                           '/verif/symx/replay.py jobs.json out.json'),
                  open(path, 'w'), indent=1)
        f = v['replay_out']['fails']
        print('%s %s: %s | %s' % (v['harness'], json.dumps(v['cfg']), v['msg'],
                                  f[0] if f else v['replay_out']['exc']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if a.strict:
        errors += notes
    for e in notes[:12]:
        print('UNDECIDED %s %s %s: %s' % (e['status'], e['harness'],
                                          json.dumps(e['cfg']), e['msg'][:1200]))
    for e in errors[:8]:
        print('CHECK-ERROR %s %s %s: %s %s' % (e['status'], e['harness'],
                                               json.dumps(e['cfg']), e['msg'],
                                               e.get('detail', '')))
        if e.get('tb'):
            print(e['tb'])
    write_evidence(prop, a.tier, seed, hm, results, xv, replays, len(new),
                   len(set(knowns)), time.time() - t0)
    if new:
        return 1
    if errors:
        return 2
    n = len(results)
    print('OK property=%s configs=%d paths=%d queries=%d wall=%.1fs' % (
        prop, n, sum(r['stats'].get('paths', 0) for r in results),
        sum(r['stats'].get('queries', 0) for r in results), time.time() - t0))
    return 0


def cross_validate(a, prop, results, env, rng, xv):
    """Random concrete inputs: real build's outputs must satisfy the encoding."""
    per = {}
    jobs = []
    for r in results:
        h = api.REGISTRY[r['harness']]
        k = h.opts.get('xval', 2)
        per.setdefault(r['harness'], []).append(r)
    for name, rs in per.items():
        k = api.REGISTRY[name].opts.get('xval', 2)
        if not k:
            continue
        idx = rng.permutation(len(rs))[:k]
        for i in idx:
            r = rs[int(i)]
            if r['status'] != 'ok' or not r['spec']:
                continue
            jobs.append(dict(prop=prop, harness=name, cfg=r['cfg'], tier=a.tier,
                             inputs=api.rand_inputs(r['spec'], rng), obs=True,
                             opts=r['opts']))
    # configurations the solver could not decide: at least run them
    for r in [r for r in results if r['status'] != 'ok' and r['spec'] and
              r['status'] != 'violation'][:12]:
        for _ in range(3):
            jobs.append(dict(prop=prop, harness=r['harness'], cfg=r['cfg'],
                             tier=a.tier, undecided=True, obs=True,
                             inputs=api.rand_inputs(r['spec'], rng)))
    if not jobs:
        return []
    for j in jobs:
        j['tolf'] = 4.
    outs = env.run(jobs)
    errs, js = [], []
    for j, o in zip(jobs, outs):
        if o['assume']:
            continue
        if o['exc'] and o['exc'].startswith('HARNESS'):
            errs.append(dict(status='xval-harness', harness=j['harness'],
                             cfg=j['cfg'], msg=o['exc']))
            continue
        if o['exc'] or o['fails']:
            errs.append(dict(status='xval', harness=j['harness'], cfg=j['cfg'],
                             msg='fails on the real build: %s %s'
                             % (o['exc'], o['fails'][:1]), tb=o.get('tb', ''),
                             replay_out=o, inputs=j['inputs']))
            continue
        if j.get('undecided') or not o['obs']:
            xv['runs'] += 1
            continue
        js.append(dict(j, xval=dict(inputs=j['inputs'], obs=o['obs'])))
    for r in pool_map(js, a.jobs):
        if r['status'] in ('ok',):
            xv['runs'] += 1
            xv['comparisons'] += r['stats']['xval']
        elif r['status'] == 'vacuous':
            pass    # excluded rounding tie
        else:
            errs.append(dict(r, status='xval-' + r['status']))
    return errs


def write_evidence(prop, tier, seed, hm, results, xv, replays, nviol, nknown,
                   wall):
    ent = sorted({e for r in results for e in r['entered']})
    g = lambda k: sum(r['stats'].get(k, 0) for r in results)
    byh = {}
    for r in results:
        d = byh.setdefault(r['harness'], dict(configs=0, paths=0, queries=0,
                                              solver_s=0., checks=0))
        d['configs'] += 1
        for k in ('paths', 'queries', 'solver_s', 'checks'):
            d[k] = round(d[k] + r['stats'].get(k, 0), 3)
    samples = []
    for r in results[:: max(1, len(results) // 5)][:5]:
        samples.append(dict(harness=r['harness'], cfg=r['cfg'],
                            verdict=r['status'],
                            inputs={k: [v[0], list(v[1]), v[2], v[3]]
                                    for k, v in r['spec'].items()},
                            stats={k: (round(v, 3) if isinstance(v, float) else v)
                                   for k, v in r['stats'].items()}))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(
                  states=int(g('paths')), transitions=int(g('branch_queries')
                                                           + g('queries')),
                  traces_validated_against_impl=int(xv['runs'] + replays),
                  samples=samples,
                  functions_encoded=ent,
                  configurations=len(results),
                  configurations_decided=sum(r['status'] == 'ok'
                                             for r in results),
                  reachability_witnesses=sum(r['status'] == 'ok'
                                             for r in results),
                  assertions=int(g('checks')),
                  assertion_terms_nontrivial=int(g('nontrivial')),
                  assertions_trivially_true=int(g('trivial')),
                  queries_discharged=int(g('queries')),
                  branch_feasibility_queries=int(g('branch_queries')),
                  solver_seconds=round(g('solver_s'), 2),
                  translator_validation=xv, replays=replays,
                  harnesses=byh,
                  bounds=getattr(hm, 'BOUNDS', ''),
                  explanation='states = symbolic paths executed; transitions = '
                              'solver queries (branch feasibility + assertions)'),
              assumptions=list(getattr(hm, 'ASSUMPTIONS', [])) + COMMON,
              wall_s=round(wall, 2), violations=nviol)
    ev['coverage']['known_findings'] = nknown
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'),
              indent=1)


COMMON = [
    'floating point is idealised as real arithmetic; stated tolerances and '
    'excluded rounding ties absorb round-off',
    'numba-compiled functions are executed from their Python source (numba itself '
    'is trusted; validated by the concrete runs counted above)',
    'scipy.fft/numpy.fft are modelled as the exact DFT of the same length',
]

if __name__ == '__main__':
    main()
