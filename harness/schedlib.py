# -*- coding: utf-8 -*-
"""Adversarial schedules for `numba.prange` loops.

`prange` in the kernels' modules is replaced by an iterator that runs the parallel
iterations
  asc / desc : one after another, forward / backward;
  overlap    : fully overlapped - every iteration starts from the memory the loop
               started with, and the writes of all iterations are merged afterwards
               (locations written by several iterations keep one iteration's value);
  overlap-rev: the same, merged in the opposite order.
Iterations whose write sets are disjoint from each other's access sets give the same
memory under all four; the solver compares the results for every input.
Works on symbolic arrays, in plain Python and (jit disabled) on the real build.
"""
import contextlib
import sys
import numpy as np
from harness import util as U

SCHEDS = ('asc', 'desc', 'overlap', 'overlap-rev')
MODS = ('algos', 'utils.stft_utils', 'ridge_extraction', 'utils.common',
        'utils.cwt_utils', 'utils.fft_utils', 'wavelets', '_gmw', '_cwt', '_stft',
        'ssqueezing', '_ssq_cwt', '_ssq_stft')


def raw(a):
    return a.raw() if hasattr(a, 'raw') else a


def arrays(frame):
    out, seen = [], set()
    for v in list(frame.f_locals.values()):
        if isinstance(v, np.ndarray) and v.size and id(v) not in seen:
            r = raw(v)
            if r.flags.writeable:
                seen.add(id(v))
                out.append(v)
    return out


def _bump(a):
    if hasattr(a, '_bump'):
        a._bump()


def overlap(t, r, frame, rev):
    arrs, base, new = None, None, None
    order = list(r)
    for i in order:
        arrs = arrays(frame)
        if base is None:
            base = {id(a): (a, raw(a).copy()) for a in arrs}
            new = {k: {} for k in base}
        yield i
        # collect what this iteration wrote and put the old memory back
        for k, (a, old) in base.items():
            cur = raw(a)
            for p in np.ndindex(*old.shape):
                x, y = cur[p], old[p]
                if x is y if old.dtype == object else bool(
                        x == y or (x != x and y != y)):
                    continue
                new[k].setdefault(p, []).append(x)
            cur[...] = old
            _bump(a)
    if base is None:
        return
    for k, (a, old) in base.items():
        for p, vals in new[k].items():
            v = old[p]
            for x in (vals[::-1] if rev else vals):
                if v is old[p]:
                    v = x
                else:           # written by several iterations
                    same = x == old[p]
                    v = t.ite(same, v, x)
            raw(a)[p] = v
        _bump(a)


class Sched:
    def __init__(self, t, kind):
        self.t, self.kind, self.depth, self.loops = t, kind, 0, 0
        self.live = True        # loops are seen (kernels not compiled)

    def __call__(self, *a):
        r = range(*[int(x) for x in a])
        if self.depth:          # nested prange runs sequentially
            return r
        self.loops += 1
        return self._run(r, sys._getframe(1))

    def _run(self, r, frame):
        self.depth += 1
        try:
            if self.kind == 'asc':
                yield from r
            elif self.kind == 'desc':
                yield from reversed(r)
            else:
                yield from overlap(self.t, r, frame,
                                   self.kind == 'overlap-rev')
        finally:
            self.depth -= 1


@contextlib.contextmanager
def schedule(t, kind):
    s = Sched(t, kind)
    conf = getattr(sys.modules.get('numba'), 'config', None)
    if conf is not None and not conf.DISABLE_JIT:
        s.live = False
        yield s         # compiled kernels: the threads' own schedule
        return
    with contextlib.ExitStack() as st:
        for m in MODS:
            st.enter_context(U.patched(t.mod(m), prange=s))
        yield s
