#!/usr/bin/env python
"""Usage: check.py PROPERTY   (environment: VERIF_TIER, VERIF_SEED)"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import importlib  # noqa: E402
from mc import core  # noqa: E402


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    core.setup_environment()
    budget = 240. if tier == 'quick' else 780.
    try:
        mod = importlib.import_module('mc.checks.' + prop.lower())
    except Exception as e:  # the tree does not even import
        return core.import_failed(prop, tier, seed, e)
    ctx = core.Ctx(prop, tier, seed, budget)
    try:
        mod.run(ctx)
    except core.Deadline:
        ctx.exhaustive = False
    except core._Fail as e:
        try:
            ctx.record(e.what, e.case, e.key)
        except core.Deadline:
            pass
    return ctx.finish()


if __name__ == '__main__':
    try:
        rc = main(sys.argv)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        # failure of the code under test outside any case
        prop = sys.argv[1]
        ctx = core.Ctx(prop, 'quick', 1, 1)
        ctx.violations.append(('uncaught failure: ' +
                               traceback.format_exc()[-1500:], {}))
        rc = ctx.finish()
    sys.stdout.flush()
    os._exit(rc)
