"""M06: trajectory trees and belief exploration."""
import itertools
import json
import os
import tempfile
from fractions import Fraction as F

import numpy as np

from task_models.lib.pomdp import GraphPolicy, GraphPolicyBeliefRunner

from ..models import Model, dists, close, two_state, three_state, rare, big
from .m05 import best_nodes


def runner(m, actions, values):
    p = m.real()
    obs = m.observations if m.names else list(range(m.no))
    gp = GraphPolicy(actions, obs, [[0] * m.no] * len(actions), values, init=0)
    return p, GraphPolicyBeliefRunner(gp, p), obs


class Ref(object):

    def __init__(self, ctx, m, actions, values, obs):
        self.ctx, self.m = ctx, m
        self.actions, self.values, self.obs = actions, values, obs
        self.anames = m.actions if m.names else list(range(m.na))
        self.memo = {}

    def at(self, b0, hist):
        if not hist:
            return b0
        if (b0, hist) not in self.memo:
            b = self.at(b0, hist[:-1])
            self.memo[b0, hist] = b and self.m.step(b, *hist[-1])
        return self.memo[b0, hist]

    def compare(self, tree, b0, hist, horizon):
        ctx, m = self.ctx, self.m
        where = 'after %r' % (hist,)
        b = self.at(tuple(b0), tuple(hist))
        ctx.trans()
        ctx.ensure(close(tree['belief'], b), 'belief %r instead of %s %s' % (
            tree['belief'], [str(x) for x in b], where), repr(m))
        best = best_nodes(self.values, b)
        ctx.ensure(tree['node'] in best, 'node %r, best %r %s' % (
            tree['node'], best, where), repr(m))
        ctx.eq(tree['action'], self.actions[tree['node']], 'action ' + where,
               repr(m))
        a = self.anames.index(tree['action'])
        poss = [] if horizon <= 0 else [
            o for o in range(m.no)
            if self.at(tuple(b0), tuple(hist) + ((a, o),)) is not None]
        ctx.eq(list(tree['observations']), [self.obs[o] for o in poss],
               'observations %s, horizon %d' % (where, horizon), repr(m))
        ctx.eq(len(tree['children']), len(poss), 'children ' + where, repr(m))
        for o, c in zip(poss, tree['children']):
            self.compare(c, b0, hist + [(a, o)], horizon - 1)


def case_tree(ctx, m, actions, values, horizon, tmp):
    p, r, obs = runner(m, actions, values)
    ref = Ref(ctx, m, actions, values, obs)
    ctx.trace()
    for b in [m.start] + dists(m.ns, 2):
        r.reset(belief=np.array([float(x) for x in b]))
        cur = (np.array(r.current_belief), int(r.current))
        t = r.trajectory_tree(horizon)
        ref.compare(t, b, [], horizon)
        ctx.ensure(np.array_equal(cur[0], r.current_belief) and
                   cur[1] == int(r.current), 'runner moved by the tree: %r '
                   'instead of %r' % (r.current_belief, cur[0]), repr(m))
        json.dumps(t)
        ctx.states_n(1)
    for how in ('dict', 'file'):
        r.reset()
        if how == 'dict':
            d = r.trajectory_trees_from_starts(horizon=horizon)
        else:
            path = os.path.join(tmp, 't.json')
            r.save_trajectories_from_starts(path, horizon=horizon)
            d = json.load(open(path))
        starts = [i for i, x in enumerate(m.start) if x]
        ctx.eq(list(d), ['graphs'], 'keys', repr(m))
        ctx.eq(len(d['graphs']), len(starts), 'number of trees from starts',
               repr(m))
        for s, t in zip(starts, d['graphs']):
            ref.compare(t, [F(int(i == s)) for i in range(m.ns)], [], horizon)


TOL = 1e-2


def case_visit(ctx, m, actions, values, max_states=None, used=()):
    p, r, obs = runner(m, actions, values)
    # the runner may have been anywhere before
    for b in used:
        r.reset(belief=np.array([float(x) for x in b]))
    if len(used) > 1:
        r.trajectory_trees_from_starts(horizon=1)
        r.visit(max_states=2)
    anames = m.actions if m.names else list(range(m.na))
    g = r.visit() if max_states is None else r.visit(max_states=max_states)
    beliefs = np.asarray(g.values, dtype=float)
    n = len(beliefs)
    ctx.trace()
    ctx.eq(g.n_nodes, n, 'actions and beliefs', repr(m))
    ctx.eq(int(g.init), 0, 'first node', repr(m))
    ctx.eq(list(g.observations), list(obs), 'observations', repr(m))
    ctx.ensure(close(beliefs[0], m.start), 'first belief %r' % beliefs[0],
               repr(m))
    for i, j in itertools.combinations(range(n), 2):
        d = np.sqrt(((beliefs[i] - beliefs[j]) ** 2).sum())
        ctx.ensure(d > TOL - 1e-9, 'beliefs %d and %d at distance %g' % (
            i, j, d), repr(m))
    tr = np.asarray(g.transitions)
    ctx.eq(tr.shape, (n, m.no), 'shape of transitions', repr(m))
    limit = max_states if max_states is not None else 100
    expanded = 0
    ended = False
    targets = {0}
    for i in range(n):
        # action proposed by the policy at that belief
        best = best_nodes(values, beliefs[i])
        ctx.ensure(g.actions[i] in [actions[k] for k in best],
                   'action %r at belief %r' % (g.actions[i], beliefs[i]),
                   repr(m))
        a = anames.index(g.actions[i])
        row = [tr[i][o] for o in range(m.no)]
        if all(x is None for x in row):
            # not expanded: only allowed once the size limit is exceeded
            ctx.ensure(n > limit, 'node %d not expanded' % i, repr(m))
            ended = True
            continue
        ctx.ensure(not ended, 'nodes not expanded in order', repr(m))
        expanded += 1
        for o in range(m.no):
            ctx.trans()
            b = [F(x) for x in beliefs[i]]
            z = m.posterior(b, [(a, o)])
            if z is None:
                ctx.ensure(row[o] is None, 'transition for an impossible '
                           'observation', repr(m))
                continue
            ctx.ensure(row[o] is not None, 'no transition from node %d for '
                       'possible observation %d' % (i, o), repr(m))
            t = int(row[o])
            ctx.ensure(0 <= t < n, 'target %d' % t, repr(m))
            targets.add(t)
            d = np.sqrt(((beliefs[t] - np.array([float(x) for x in z])) ** 2)
                        .sum())
            ctx.ensure(d < TOL + 1e-9, 'node %d, observation %d leads to node '
                       '%d at distance %g of the posterior' % (i, o, t, d),
                       repr(m))
    ctx.eq(targets, set(range(n)), 'recorded beliefs reached', repr(m))
    # expansion goes on exactly until more beliefs than allowed are recorded
    known = 1
    for i in range(n):
        full = known > limit
        row = [x for x in tr[i] if x is not None]
        if not row:
            break
        ctx.ensure(not full, 'node %d expanded although %d beliefs are '
                   'recorded (limit %d)' % (i, known, limit), repr(m))
        known = max([known] + [int(x) + 1 for x in row])
    ctx.states_n(n)


VS = [(['a0', 'a1'], [[1., 0.], [0., 1.]]),
      (['a1', 'a0', 'a1'], [[1., 0.], [.7, .7], [0., 1.]]),
      (['a0', 'a1', 'a0'], [[-1., 2.], [3., -2.], [.5, .5]])]


def run(ctx):
    ctx.assumptions = ['merging distance 0.01 (Euclidean), as documented in '
                       'the code; ties between nodes of equal value may be '
                       'broken either way']
    rows = [(F(1), F(0)), (F(1, 4), F(3, 4)), (F(0), F(1))]
    tmp = tempfile.mkdtemp()
    try:
        k = 0
        for m in two_state(t_rows=rows, o_rows=rows,
                           start=[(F(1), F(0)), (F(1, 2), F(1, 2))]):
            for acts, vals in VS:
                k += 1
                for h in ctx.pick((0, 1, 2) if k % 3 == 0 else (1,),
                                  (0, 1, 2, 3)):
                    ctx.run_case(case_tree, [repr(m), acts, h], ctx, m, acts,
                                 vals, h, tmp)
                ctx.run_case(case_visit, ['visit', repr(m), acts, vals], ctx,
                             m, acts, vals)
                for used in [[b] for b in dists(2, 2)] + [dists(2, 1)]:
                    ctx.run_case(case_visit, ['used', repr(m), acts, vals,
                                              str(used)], ctx, m, acts, vals,
                                 2, used)
                for lim in (1, 3):
                    ctx.run_case(case_visit, ['visit', repr(m), acts, vals,
                                              lim], ctx, m, acts, vals, lim)
            ctx.sample(m)
        orow = [(F(1), F(0), F(0)), (F(0), F(1, 3), F(2, 3)),
                (F(1, 2), F(1, 2), F(0))]
        r3 = [(F(1), F(0), F(0)), (F(0), F(1, 2), F(1, 2)),
              (F(1, 3), F(1, 3), F(1, 3))]
        v3 = [(['a1', 'a0'], [[1., 0., 2.], [0., 3., 0.]]),
              (['a0', 'a1', 'a1'], [[1., 1., 0.], [0., 1., 1.],
                                    [.9, .5, .9]])]
        ms = list(three_state(r3, orow, [(F(1, 2), F(0), F(1, 2)),
                                         (F(1, 3), F(1, 3), F(1, 3))]))
        # rare outcomes, far horizons, larger models
        for k, m in enumerate(two_state(
                t_rows=rare(2)[1:5:2], o_rows=rare(2)[:4:3],
                start=[rare(2)[2], rare(2)[3], rare(2)[-1]])):
            acts, vals = VS[k % 3]
            ctx.run_case(case_tree, [repr(m), acts, 2], ctx, m, acts, vals, 2,
                         tmp)
            ctx.run_case(case_visit, ['visit', repr(m), acts, 5], ctx, m,
                         acts, vals, 5)
        for k, m in enumerate(two_state(
                t_rows=rows[:2], o_rows=rows[1:], start=[(F(1), F(0))])):
            for h in (3, 4, 5) if k % 3 == 0 or ctx.thorough else (4,):
                acts, vals = VS[k % 3]
                ctx.run_case(case_tree, [repr(m), acts, h], ctx, m, acts,
                             vals, h, tmp)
        # farther: few observations possible at a time
        T = tuple(tuple(tuple(F(int(j == (i + 1 + a) % 3)) for j in range(3))
                        for i in range(3)) for a in range(2))
        O = (((F(1), F(0)), (F(0), F(1)), (F(1), F(0))),
             ((F(1), F(0)), (F(1), F(0)), (F(1, 2), F(1, 2))))
        for st in ((F(1), F(0), F(0)), (F(1, 2), F(1, 2), F(0))):
            m = Model(T, O, st)
            for h in (6, 7) + ctx.pick((), (8,)):
                for a, vals in ((['a1', 'a0'], [[1., 0., 2.], [0., 3., 0.]]),
                                (['a0'], [[0.] * 3])):
                    ctx.run_case(case_tree, ['far', str(st), a, h], ctx, m, a,
                                 vals, h, tmp)
        for k, dims in enumerate([(6, 2, 3), (3, 5, 2), (2, 3, 6)]):
            m = big(*dims, k)
            n = dims[1] + 1
            a = [m.actions[i % dims[1]] if m.names else i % dims[1]
                 for i in range(n)]
            vals = [[((3 * i + 2 * s * s + k) % 5) / 4.
                     for s in range(dims[0])] for i in range(n)]
            ctx.run_case(case_tree, ['big', dims], ctx, m, a, vals, 2, tmp)
            for lim in (0, 2, 7, 20):
                ctx.run_case(case_visit, ['visit', 'big', dims, lim], ctx, m,
                             a, vals, lim)
        # many beliefs waiting to be expanded
        for n, lim in ((70, 66),) + ctx.pick((), ((90, 80),)):
            eye = tuple(tuple(F(int(i == j)) for j in range(n))
                        for i in range(n))
            m = Model((eye[1:] + eye[:1],), (eye,),
                      tuple(F(1, n) for _ in range(n)), R=np.zeros(
                          (1, n, n, n), dtype=np.float32))
            ctx.run_case(case_visit, ['visit', 'many', n, lim], ctx, m,
                         [m.actions[0]], [[1.] * n], lim)
        for j, m in enumerate(ms[::ctx.pick(9, 1)]):
            acts, vals = v3[j % 2]
            m.names = bool(j % 3)
            a = acts if m.names else [int(x[1:]) for x in acts]
            for h in ctx.pick((2,), (1, 2, 3)):
                ctx.run_case(case_tree, [repr(m), acts, h], ctx, m, a, vals,
                             h, tmp)
            ctx.run_case(case_visit, ['visit', repr(m), acts, vals], ctx, m,
                         a, vals, ctx.pick(25, None))
    finally:
        import shutil
        shutil.rmtree(tmp)
