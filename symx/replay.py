# -*- coding: utf-8 -*-
"""Run harnesses concretely on the real build:
    /opt/venv/bin/python /verif/symx/replay.py jobs.json out.json
jobs: list of dict(prop, harness, cfg, inputs, obs)."""
import json
import os
import sys
import traceback
import warnings


def enc(a):
    import numpy as np
    a = np.asarray(a)
    if a.dtype.kind == 'c':
        return dict(shape=list(a.shape), c=[[repr(float(v.real)),
                                             repr(float(v.imag))]
                                            for v in a.ravel()])
    return dict(shape=list(a.shape), r=[repr(float(v)) for v in a.ravel()])


def run_one(api, job):
    h = api.REGISTRY[job['harness']]
    t = api.TConc(job['inputs'], job.get('tolf', .5))
    t.tier = job.get('tier', 'quick')
    t.real_build = True
    r = dict(fails=[], exc=None, assume=False, obs={})
    try:
        h.fn(t, **job['cfg'])
    except api.AssumeFailed:
        r['assume'] = True
    except Exception as e:
        r['exc'] = '%s: %s' % (type(e).__name__, e)
        r['tb'] = traceback.format_exc()[-2000:]
    r['fails'] = [[m, l, d] for m, l, d in t.fails]
    if job.get('obs'):
        r['obs'] = {k: enc(v) for k, v in t.observed.items()}
    return r


def main():
    jobs = json.load(open(sys.argv[1]))
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import importlib
    from symx import api
    import ssqueezepy
    repo = os.environ.get('SSQ_REPO', '/repo')
    assert os.path.realpath(ssqueezepy.__file__).startswith(
        os.path.realpath(repo) + os.sep), ssqueezepy.__file__
    out = []
    for job in jobs:
        importlib.import_module('harness.' + job['prop'].lower())
        try:
            out.append(run_one(api, job))
        except Exception as e:
            out.append(dict(fails=[], exc='HARNESS %r' % (e,), assume=False,
                            obs={}, tb=traceback.format_exc()[-2000:]))
        with open(sys.argv[2] + '.tmp', 'w') as f:
            json.dump(out, f)
    os.replace(sys.argv[2] + '.tmp', sys.argv[2])


if __name__ == '__main__':
    main()
