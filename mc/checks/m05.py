"""M05: policy runners."""
import itertools
from fractions import Fraction as F

import numpy as np

from task_models.lib.pomdp import (GraphPolicy, GraphPolicyRunner,
                                   GraphPolicyBeliefRunner, Impossible)

from ..models import Model, dists, close, two_state, snapshot, rare, big


def best_nodes(values, b):
    sc = [sum(float(x) * float(v) for x, v in zip(b, vec)) for vec in values]
    return [i for i, s in enumerate(sc) if s >= max(sc) - 1e-9]


def case_graph(ctx, actions, obs, tr, init, values, depth):
    gp = GraphPolicy(actions, obs, tr, values, init=init)
    r = GraphPolicyRunner(gp)
    ctx.trace()

    def follow(c, seq, reset):
        reset()
        path = []
        for z in seq + (None,):
            for _ in range(2):   # asking twice changes nothing
                ctx.eq(r.get_action(), actions[c], 'action after %r' % (path,),
                       [tr, init])
            if z is None:
                return
            path.append(z)
            c = tr[c][z]
            ctx.trans()
            try:
                r.step(obs[z])
            except Impossible:
                ctx.ensure(c is None, 'listed transition reported impossible '
                           'after %r' % (path,), [tr, init])
                return
            ctx.ensure(c is not None, 'missing transition not reported after '
                       '%r' % (path,), [tr, init])

    for n in range(depth + 1):
        for seq in itertools.product(range(len(obs)), repeat=n):
            follow(init, seq, r.reset)
    k = len(values[0])
    for b in dists(k, 2):
        arr = np.array([float(x) for x in b])
        for seq in itertools.product(range(len(obs)), repeat=2):
            r.reset(belief=arr)
            best = best_nodes(values, b)
            # any node of greatest value: identified through its action
            match = [i for i in best if i == int(r.current)]
            ctx.ensure(bool(match), 'reset with belief %r at node %r, best %r'
                       % (arr, r.current, best), [values])
            follow(match[0], seq, lambda: None)
    r.reset()
    ctx.eq(r.get_action(), actions[init], 'action after reset', [tr, init])
    ctx.states_n(1)


def case_grid(ctx, values, den):
    """The node chosen at reset for every belief of a fine grid."""
    n = len(values)
    gp = GraphPolicy(['a%d' % i for i in range(n)], [0], [[0]] * n, values,
                     init=0)
    r = GraphPolicyRunner(gp)
    exact = [[F(x) for x in v] for v in values]
    for b in dists(len(values[0]), den):
        r.reset(belief=np.array([float(x) for x in b]))
        sc = [sum(x * v for x, v in zip(b, vec)) for vec in exact]
        ctx.ensure(max(sc) - sc[int(r.current)] <= F(1, 10 ** 9),
                   'belief %s starts at node %r of values %s' % (
                       [str(x) for x in b], r.current, [float(x) for x in sc]),
                   [values])
        ctx.eq(r.get_action(), 'a%d' % int(r.current), 'action', [values])
        ctx.trans()
    ctx.states_n(1)
    ctx.trace()


def case_large(ctx, n, no, k):
    """Policies of many nodes: every node from its belief, every transition.
    """
    obs = ['z%d' % i for i in range(no)]
    acts = ['act-%d' % (i % 7) for i in range(n)]
    tr = [[None if (i * 5 + z * 3 + k) % 13 == 0 else
           (i * (z + 2) + k + 1) % n for z in range(no)] for i in range(n)]
    vals = np.eye(n) + .25
    for init in (0, n // 2, n - 1):
        gp = GraphPolicy(acts, obs, tr, vals.tolist(), init=init)
        r = GraphPolicyRunner(gp)
        ctx.eq(r.get_action(), acts[init], 'initial action', [n, init])
        for i in range(n):
            b = np.zeros(n)
            b[i] = .75
            b[(i + 1) % n] += .25
            for z in range(no):
                r.reset(belief=b)
                ctx.eq(int(r.current), i, 'node of belief', [n, i])
                ctx.eq(r.get_action(), acts[i], 'action', [n, i])
                ctx.trans()
                try:
                    r.step(obs[z])
                except Impossible:
                    ctx.ensure(tr[i][z] is None, 'reported impossible',
                               [n, i, z])
                    continue
                ctx.ensure(tr[i][z] is not None, 'not reported', [n, i, z])
                ctx.eq(r.get_action(), acts[tr[i][z]], 'next action',
                       [n, i, z])
        ctx.states_n(n)
    ctx.trace()


def case_belief(ctx, m, actions, values, depth):
    p = m.real()
    gp = GraphPolicy(actions, m.observations if m.names else
                     list(range(m.no)), [[0] * m.no] * len(actions), values,
                     init=len(actions) - 1)
    r = GraphPolicyBeliefRunner(gp, p)
    before = snapshot(p)
    obs = gp.observations
    anames = m.actions if m.names else list(range(m.na))
    ctx.trace()

    def at(b, where):
        ctx.ensure(close(r.current_belief, b), 'belief %r instead of %s %s' % (
            r.current_belief, [str(x) for x in b], where), [repr(m), values])
        best = best_nodes(values, b)
        ctx.ensure(int(r.current) in best, 'node %r, best nodes %r %s' % (
            r.current, best, where), [repr(m), values])
        ctx.eq(r.get_action(), actions[int(r.current)], 'action ' + where,
               [repr(m), values])
        return anames.index(r.get_action())

    def run_seq(b0, seq, reset):
        reset()
        hist = []
        b = b0
        for z in seq:
            a = at(b, 'after %r' % (hist,))
            hist.append((a, z))
            b2 = m.posterior(b0, hist)
            ctx.trans()
            try:
                r.step(obs[z])
            except Impossible:
                ctx.ensure(b2 is None, 'possible observation reported '
                           'impossible after %r' % (hist,), repr(m))
                hist.pop()
                at(b, 'after refused observation, %r' % (hist,))
                return len(hist) + 1
            ctx.ensure(b2 is not None, 'impossible observation accepted, %r'
                       % (hist,), repr(m))
            b = b2
        at(b, 'after %r' % (hist,))
        return None

    def all_seqs(b0, reset):
        for seq in itertools.product(range(m.no), repeat=depth):
            run_seq(b0, seq, reset)

    at(m.start, 'at creation')
    all_seqs(m.start, r.reset)
    for b in dists(m.ns, 2):
        arr = np.array([float(x) for x in b])
        all_seqs(b, lambda: r.reset(belief=arr.copy()))
    all_seqs(m.start, r.reset)
    ctx.ensure(before == snapshot(p), 'model changed', repr(m))
    ctx.states_n(1)


def run(ctx):
    ctx.assumptions = ['ties between nodes of equal value may be broken '
                       'either way']
    V = [[1., 0.], [0., 1.], [.6, .6], [2., -3.]]
    for n, no in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)) + \
            ctx.pick((), ((3, 2),)):
        cells = [None] + list(range(n))
        for flat in itertools.product(cells, repeat=n * no):
            tr = [list(flat[i * no:(i + 1) * no]) for i in range(n)]
            for acts in itertools.product('ab', repeat=n):
                for init in range(n):
                    vals = [V[(i + init) % 4] for i in range(n)]
                    ctx.run_case(case_graph, ['graph', tr, acts, init], ctx,
                                 list(acts), ['z%d' % i for i in range(no)],
                                 tr, init, vals, ctx.pick(3, 4))
            ctx.sample(tr)
    # one three-node policy and all observation sequences
    for tr in ([[1, 2], [2, None], [0, 1]], [[1, None], [0, 2], [2, 2]]):
        for init in range(3):
            ctx.run_case(case_graph, ['graph', tr, init], ctx, ['x', 'y', 'x'],
                         [0, 1], tr, init, V[:3], 5)
    for vals in itertools.product([(1., 0.), (0., 1.), (.5, .5), (-2., 3.),
                                   (.501, .498)], repeat=ctx.pick(2, 3)):
        ctx.run_case(case_grid, ['grid', vals], ctx, [list(v) for v in vals],
                     ctx.pick(100, 400))
    for vals in itertools.product([(1., 0., 0.), (0., 1., 0.), (.5, .5, 0.),
                                   (.4, .3, .3), (-3., 1., 2.)],
                                  repeat=ctx.pick(2, 3)):
        ctx.run_case(case_grid, ['grid', vals], ctx, [list(v) for v in vals],
                     ctx.pick(25, 50))
    # values close to each other, large and small
    for c, e in ((100., .01), (1e6, 1e-3), (-5e4, 1e-4), (0., 1e-6),
                 (.5, 1e-8)):
        for vals in ([(c, c), (c + e, c + e), (c, c + 2 * e)],
                     [(c + e, c - e), (c, c), (c - e, c + e)],
                     [(c, c), (c, c), (c + e, c)]):
            for o in itertools.permutations(vals):
                ctx.run_case(case_grid, ['close', o], ctx,
                             [list(v) for v in o], ctx.pick(20, 60))
    for k, (n, no) in enumerate([(5, 3), (12, 2), (33, 4), (150, 2),
                                 (7, 20)]):
        ctx.run_case(case_large, ['large', n, no], ctx, n, no, k)
    vs = [(['a0', 'a1'], [[1., 0.], [0., 1.]]),
          (['a1', 'a0', 'a1'], [[1., 0.], [.7, .7], [0., 1.]]),
          (['a1'], [[0., 0.]]),
          (['a0', 'a1', 'a0'], [[-1., 2.], [3., -2.], [.5, .5]])]
    rows = [(F(1), F(0)), (F(1, 4), F(3, 4)), (F(0), F(1))]
    for m in two_state(t_rows=rows[:ctx.pick(2, 3)], o_rows=rows,
                       start=[(F(1), F(0)), (F(1, 2), F(1, 2))]):
        for acts, vals in vs:
            ctx.run_case(case_belief, [repr(m), acts, vals], ctx, m, acts,
                         vals, ctx.pick(3, 4))
        ctx.sample(m)
    # rare outcomes and larger models
    for k, m in enumerate(two_state(t_rows=rare(2)[1:5:2], o_rows=rare(2)[:4],
                                    start=[rare(2)[2]])):
        acts, vals = vs[(0, 1, 3)[k % 3]]
        ctx.run_case(case_belief, [repr(m), acts, vals], ctx, m, acts, vals,
                     2)
    # beliefs growing from almost nothing
    I2 = ((F(1), F(0)), (F(0), F(1)))
    for g in (6, 12):
        for e in (34, 40, 50):
            q = F(1, 2 ** g)
            m = Model((I2, I2), (((1 - q, q), (F(1, 2), F(1, 2))),
                                 ((F(1), F(0)), (F(1, 2), F(1, 2)))),
                      (1 - F(1, 2 ** e), F(1, 2 ** e)))
            for acts, vals in vs:
                ctx.run_case(case_belief, ['tiny', g, e, acts], ctx, m, acts,
                             vals, ctx.pick(7 if g == 6 else 5, 8))
    for k, dims in enumerate([(6, 2, 3), (3, 5, 2), (2, 3, 6)]):
        m = big(*dims, k)
        n = dims[1] + 1
        a = [m.actions[i % dims[1]] if m.names else i % dims[1]
             for i in range(n)]
        vals = [[((3 * i + 2 * s * s + k) % 5) / 4. for s in range(dims[0])]
                for i in range(n)]
        ctx.run_case(case_belief, ['big', dims], ctx, m, a, vals, 2)
    orow = [(F(1), F(0), F(0)), (F(0), F(1, 3), F(2, 3)),
            (F(1, 2), F(1, 2), F(0))]
    for m in two_state(t_rows=rows[:2], o_rows=orow, n_obs=3,
                       start=[(F(1, 4), F(3, 4))]):
        for k, (acts, vals) in enumerate(vs):
            m.names = k % 2 == 0
            a = acts if m.names else [int(x[1:]) for x in acts]
            ctx.run_case(case_belief, [repr(m), acts, vals], ctx, m, a, vals,
                         ctx.pick(2, 3))
