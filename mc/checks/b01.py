"""B01: belief updates are exact posteriors."""
import itertools
from fractions import Fraction as F

import numpy as np

from task_models.lib.pomdp import Impossible
from task_models.lib.belief import ArrayBelief

from ..models import Model, dists, close, two_state, three_state, snapshot

ASSUME = ['probabilities on grids (k/2, k/4, k/3); floating point results '
          'compared to exact fractions within 1e-9']


def one_update(ctx, m, p, b, a, o, history, b_arr):
    """Returns the updated real array or None."""
    before = (snapshot(p), b_arr.tobytes())
    ref = m.posterior(b, history)
    case = {'belief': [str(x) for x in b], 'history': history}
    got = []
    for how in ('model', 'belief'):
        try:
            if how == 'model':
                r = p.belief_update(a, o, b_arr)
            else:
                r = ArrayBelief(b_arr).successor(p, a, o).array
        except Impossible:
            r = None
        ctx.trans()
        if ref is None:
            ctx.ensure(r is None, '%s: impossible observation not reported, '
                       'got %r' % (how, r), case)
        else:
            ctx.ensure(r is not None,
                       how + ': possible observation reported impossible',
                       case)
            ctx.ensure(close(r, ref), '%s update: got %r, expected %s' % (
                how, r, [str(x) for x in ref]), case)
            # however improbable: the right order of magnitude, and a state
            # is possible exactly when its probability is not zero
            r_ = np.asarray(r, dtype=float)
            ctx.ensure(all(abs(x - float(y)) <= 1e-6 * float(y)
                           for x, y in zip(r_, ref)),
                       '%s update: got %r, expected %s' % (
                           how, r_.tolist(), [float(x) for x in ref]), case)
        got.append(r)
    ctx.ensure((snapshot(p), b_arr.tobytes()) == before,
               'model or belief changed by the update', case)
    return got[0]


def case_model(ctx, m, beliefs, depth):
    p = m.real()
    ctx.trace()

    def rec(b, b_arr, hist):
        for a in range(m.na):
            for o in range(m.no):
                h = hist + [(a, o)]
                r = one_update(ctx, m, p, b, a, o,
                               h, b_arr)
                if r is not None and len(h) < depth:
                    rec(b, r, h)

    for b in beliefs:
        ctx.states_n(1)
        b_arr = np.array([float(x) for x in b])
        # single updates start from the exact belief
        rec(b, b_arr, [])
        if all(x in (0, 1) for x in b):
            ib = np.array([int(x) for x in b])
            for a in range(m.na):
                for o in range(m.no):
                    one_update(ctx, m, p, b, a, o, [(a, o)], ib)


def extreme(ctx):
    """Tiny but non-zero probabilities are possible observations."""
    for e in (F(1, 10 ** 6), F(1, 10 ** 12), F(1, 2 ** 60), F(1, 10 ** 30)):
        T = (((F(1) - e, e), (F(0), F(1))),)
        O = (((F(1), F(0)), (F(0), F(1))),)
        # nothing observed; everything observed but noisily
        for O2 in ((((F(1),), (F(1),)),),
                   (((F(1) - e, e), (F(1, 4), F(3, 4))),),
                   (((e, F(1) - e), (e * e, F(1) - e * e)),)):
            m = Model(T, O2, (F(1), F(0)))
            ctx.run_case(case_model, {'tiny': str(e), 'O': repr(O2)}, ctx, m,
                         [(F(1), F(0)), (F(1) - e, e), (e, F(1) - e)], 2)
        m = Model(T, O, (F(1), F(0)))
        p = m.real()
        for b in ((F(1), F(0)), (F(1) - e, e), (F(1, 2), F(1, 2))):
            for o in (0, 1):
                ctx.run_case(one_update, {'tiny': str(e), 'b': str(b)}, ctx,
                             m, p, b, 0, o, [(0, o)],
                             np.array([float(x) for x in b]))


def run(ctx):
    ctx.assumptions = ASSUME
    extreme(ctx)
    b2 = dists(2, 4)
    for m in two_state(start=[(F(1, 2), F(1, 2))],
                       o_rows=dists(2, ctx.pick(2, 4)),
                       t_rows=dists(2, ctx.pick(2, 4))):
        ctx.run_case(case_model, repr(m), ctx, m, b2, ctx.pick(2, 2))
        ctx.sample(m)
    # longer histories on a few rows
    for m in two_state(start=[(F(1, 2), F(1, 2))], n_obs=3,
                       t_rows=[(F(1), F(0)), (F(1, 3), F(2, 3))],
                       o_rows=[(F(1), F(0), F(0)), (F(0), F(1, 3), F(2, 3)),
                               (F(1, 2), F(1, 2), F(0))]):
        ctx.run_case(case_model, repr(m), ctx, m,
                     [(F(1), F(0)), (F(1, 3), F(2, 3))], ctx.pick(2, 3))
    rows = [(F(1), F(0), F(0)), (F(0), F(1), F(0)), (F(0), F(1, 2), F(1, 2)),
            (F(1, 4), F(1, 4), F(1, 2))]
    orow = [(F(1), F(0)), (F(0), F(1)), (F(1, 4), F(3, 4))]
    if not ctx.thorough:
        rows, orow = rows[1:], orow
    for m in three_state(rows, orow, [(F(1), F(0), F(0))]):
        ctx.run_case(case_model, repr(m), ctx, m,
                     [(F(1), F(0), F(0)), (F(0), F(1, 2), F(1, 2)),
                      (F(1, 3), F(1, 3), F(1, 3))], 1)
    # asymmetric dimensions: more observations than states and reverse
    for ns, no in ((1, 1), (1, 3), (3, 1), (4, 2), (2, 4)):
        for k in range(12):
            ds, do = dists(ns, 4), dists(no, 4)
            T = tuple(tuple(ds[(k * 5 + 3 * i + 7 * a) % len(ds)]
                            for i in range(ns)) for a in range(2))
            O = tuple(tuple(do[(k * 7 + 5 * i + 3 * a) % len(do)]
                            for i in range(ns)) for a in range(2))
            m = Model(T, O, ds[k % len(ds)])
            ctx.run_case(case_model, repr(m), ctx, m, [ds[k % len(ds)]], 2)
    ctx.extra['bounds'] = 'histories to length 2 (3 thorough) from every ' \
        'grid belief; one update for every 3-state grid model'
