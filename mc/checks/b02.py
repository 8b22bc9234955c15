"""B02: simulated transitions and starts follow the model distributions."""
from fractions import Fraction as F

import numpy as np

from task_models.lib.belief import ArrayBelief

from ..models import (Model, dists, two_state, three_state, snapshot, rare,
                      big)
from ..randomness import distribution, dist_diff


def case_model(ctx, m, p=None):
    p = m.real()
    before = snapshot(p)
    ctx.trace()
    for a in range(m.na):
        for s in range(m.ns):
            ctx.states_n(1)

            def draw():
                s2, o, r = p.sample_transition(a, s)
                return int(s2), int(o), float(r)
            got = distribution(draw, stats=ctx)
            want = {}
            for s2 in range(m.ns):
                for o in range(m.no):
                    pr = m.T[a][s][s2] * m.O[a][s2][o]
                    if pr:
                        k = (s2, o, float(m.R[a][s][s2][o]))
                        want[k] = want.get(k, 0.) + float(pr)
            d = dist_diff(got, want)
            ctx.ensure(d is None, 'transition from %d with %d: %s' % (s, a, d),
                       repr(m))
    got = distribution(lambda: int(p.sample_start()), stats=ctx)
    d = dist_diff(got, {i: float(x) for i, x in enumerate(m.start) if x})
    ctx.ensure(d is None, 'start: %s' % d, repr(m))
    ctx.ensure(before == snapshot(p), 'model changed by simulation', repr(m))


def case_belief(ctx, b):
    x = ArrayBelief(np.array([float(v) for v in b]))
    got = distribution(lambda: int(x.sample()), stats=ctx)
    d = dist_diff(got, {i: float(v) for i, v in enumerate(b) if v})
    ctx.states_n(1)
    ctx.ensure(d is None, 'belief sample: %s' % d, [str(v) for v in b])


def cost_model(ctx, m):
    """Costs are sampled as negated rewards."""
    p = m.real(values='cost')
    m.R = [[[[-r for r in x] for x in y] for y in z] for z in m.R]
    got = distribution(lambda: float(p.sample_transition(0, 0)[2]), stats=ctx)
    want = {}
    for s2 in range(m.ns):
        for o in range(m.no):
            pr = float(m.T[0][0][s2] * m.O[0][s2][o])
            if pr:
                k = m.R[0][0][s2][o]
                want[k] = want.get(k, 0.) + pr
    d = dist_diff(got, want)
    ctx.ensure(d is None, 'cost: %s' % d, repr(m))


def run(ctx):
    ctx.assumptions = ['probabilities on grids; distributions compared within '
                       '1e-9; random draws only through numpy.random / random']
    for m in two_state(start=dists(2, ctx.pick(2, 4)),
                       t_rows=dists(2, ctx.pick(2, 4)),
                       o_rows=dists(2, ctx.pick(2, 4))):
        ctx.run_case(case_model, repr(m), ctx, m)
        ctx.sample(m)
    for m in two_state(start=[(F(1, 3), F(2, 3))], n_obs=3,
                       o_rows=dists(3, 2)):
        ctx.run_case(case_model, repr(m), ctx, m)
        ctx.run_case(cost_model, 'cost ' + repr(m), ctx, m)
    rows = [(F(1), F(0), F(0)), (F(0), F(1, 2), F(1, 2)),
            (F(1, 4), F(1, 4), F(1, 2))]
    for m in three_state(rows, [(F(1), F(0)), (F(0), F(1)), (F(1, 4), F(3, 4))],
                         [(F(1, 2), F(0), F(1, 2))]):
        ctx.run_case(case_model, repr(m), ctx, m)
    # non-square dimensions and numeric names
    for ns, no in ((1, 1), (1, 3), (3, 1), (4, 2), (2, 4)):
        for k in range(20):
            ds, do = dists(ns, 4), dists(no, 4)
            T = tuple(tuple(ds[(k * 5 + 3 * i + 7 * a) % len(ds)]
                            for i in range(ns)) for a in range(3))
            O = tuple(tuple(do[(k * 7 + 5 * i + 3 * a) % len(do)]
                            for i in range(ns)) for a in range(3))
            m = Model(T, O, ds[k % len(ds)], names=bool(k % 2))
            ctx.run_case(case_model, repr(m), ctx, m)
    # rare outcomes, larger models
    r2 = rare(2)
    for k, m in enumerate(two_state(start=r2, t_rows=r2[1:4],
                                    o_rows=r2[2:5])):
        ctx.run_case(case_model, repr(m), ctx, m)
    for k, dims in enumerate([(12, 2, 3), (3, 12, 2), (2, 3, 12), (7, 5, 6),
                              (11, 2, 11)]):
        m = big(*dims, k)
        ctx.run_case(case_model, 'big %r' % (dims,), ctx, m)
    for n in range(2, 5):
        for b in rare(n):
            ctx.run_case(case_belief, str(b), ctx, b)
    for n in (10, 20, 101):
        for k in range(n):
            b = [F(1, 2 * n)] * n
            b[k] += F(1, 2)
            ctx.run_case(case_belief, 'wide %d %d' % (n, k), ctx, b)
    for n in range(1, 5):
        for b in dists(n, 4):
            ctx.run_case(case_belief, str(b), ctx, b)
