"""D03: bundled problems."""
import itertools

import numpy as np

from task_models.hold_and_release import hold_and_release_pomdp
from task_models.tower_problem import TowerProblem
from task_models.bring_next_to_pomdp import HTMToPOMDP as BringNext
from task_models.task_to_pomdp import HTMToPOMDP, CollaborativeAction
from task_models.task import (LeafCombination, SequentialCombination,
                              AlternativeCombination, HierarchicalTask)
from task_models import stool_scenarios as stool

# --- hold and release -------------------------------------------------------
# phase 0: human holds on, 1: human finished, 2: both finished


def case_hold(ctx, cw, cf, cc, p, positional):
    if positional == 2:
        m = hold_and_release_pomdp(cw, cf, cc)
        p = .2
    elif positional:
        m = hold_and_release_pomdp(cw, cf, cc, p)
    else:
        m = hold_and_release_pomdp(cost_communication=cc, cost_failure=cf,
                                   cost_wait=cw, proba_finish=p)
    what = [cw, cf, cc, p]
    ctx.eq(m.actions, ['wait', 'physical', 'communicate'], 'actions', what)
    ctx.eq(m.states, ['zero', 'one', 'final'], 'states', what)
    ctx.eq(m.observations, ['nothing', 'doing', 'done'], 'observations', what)
    ctx.ensure(float(m.discount) == 1., 'discount', what)
    ctx.eq([float(x) for x in m.start], [1., 0., 0.], 'start', what)
    ctx.trace()
    # explore the reachable part of the model
    seen = {0}
    todo = [0]
    while todo:
        s = todo.pop()
        ctx.states_n(1)
        for a in range(3):
            nxt = [0., 0., 0.]
            if s == 0:
                nxt = [1 - p, p, 0.]
            elif s == 1 and a == 1:
                nxt[2] = 1.
            else:
                nxt[s] = 1.
            for t in range(3):
                g = float(m.T[a, s, t])
                ctx.ensure(abs(g - nxt[t]) < 1e-12, 'T[%d, %d, %d] is %r, '
                           'expected %r' % (a, s, t, g, nxt[t]), what)
                o = 0 if a == 0 or t == 2 else 1 + t
                for z in range(3):
                    g = float(m.O[a, t, z])
                    ctx.ensure(abs(g - (z == o)) < 1e-12, 'O[%d, %d, %d] is '
                               '%r' % (a, t, z, g), what)
                if nxt[t] > 0:
                    ctx.trans()
                    c = cw if a == 0 else cc if a == 2 else cf if s == 0 else 0
                    g = float(m.R[a, s, t, o])
                    ctx.ensure(abs(g + c) < 1e-9, 'reward of action %d from '
                               '%d to %d is %r, expected %r' % (a, s, t, g,
                                                                -c), what)
                    if t not in seen:
                        seen.add(t)
                        todo.append(t)


# --- towers -----------------------------------------------------------------

def check_seq(ctx, seq, order, suffix, what):
    ctx.ensure(type(seq) is SequentialCombination, 'kind of branch', what)
    ctx.eq(len(seq.children), len(order), 'length of branch', what)
    for leaf, i in zip(seq.children, order):
        ctx.ensure(isinstance(leaf, LeafCombination), 'kind of step', what)
        ctx.eq(leaf.name, '%d%s' % (i, suffix), 'name of step', what)
        ctx.eq(leaf.action.obj, str(i), 'part of step', what)
        ctx.trans()


def check_alt(ctx, root, orders, names, what):
    ctx.ensure(type(root) is AlternativeCombination, 'kind of root', what)
    ctx.eq(len(root.children), len(orders), 'number of orders', what)
    for c, o, n in zip(root.children, orders, names):
        ctx.eq(c.name, n, 'name of branch', what)
        check_seq(ctx, c, o, '-' + n, what)


def executions(p):
    lab = [None if s == 'end' else s[len('before-'):].split('-')[0]
           for s in p.states]
    out = set()
    todo = [((), int(j)) for j in np.nonzero(np.asarray(p.start) > 0)[0]]
    while todo:
        w, j = todo.pop()
        if lab[j] is None:
            out.add(w)
        elif len(w) > len(lab):
            out.add(w + ('...',))
        else:
            nxt = {int(k) for a in range(len(p.actions))
                   for k in np.nonzero(p.T[a, j] > 0)[0]} - {j}
            todo += [(w + (lab[j],), k) for k in nxt]
    return out


def case_tower(ctx, h, n, defaults):
    what = [h, n]
    if defaults:
        tp = TowerProblem()
    elif (h + n) % 2:
        tp = TowerProblem(h, n)
    else:
        tp = TowerProblem(n_towers=n, height=h)
    ctx.trace()
    ctx.states_n(1)
    ctx.eq(tp.n_parts, h * n, 'number of parts', what)
    ctx.eq(list(tp.parts), [str(i) for i in range(h * n)], 'parts', what)
    v, f = list(tp.v_first()), list(tp.h_first())
    # tower t is made of parts t * h (bottom) to t * h + h - 1 (top)
    towers = [[t * h + k for k in range(h)] for t in range(n)]
    ctx.eq(v, sum(towers, []), 'vertical order', what)
    ctx.eq(f, [towers[t][k] for k in range(h) for t in range(n)],
           'horizontal order', what)
    for o in (v, f):
        ctx.eq(sorted(o), list(range(h * n)), 'parts of order', what)
        for t in towers:
            ctx.eq([x for x in o if x in t], t, 'tower not bottom-up', what)
    task = tp.vertical_horizontal_task()
    check_alt(ctx, task.root, [v, f], ['vertical', 'horizontal'], what)
    for loop in (True, False):
        p = BringNext(2., 8., 5., tp.parts, end_reward=50.,
                      loop=loop).task_to_pomdp(task)
        got = executions(p)
        ctx.eq(got, {tuple(map(str, v)), tuple(map(str, f))}, 'executions of '
               'the model', what)


def case_orders(ctx, h, n, orders, names):
    tp = TowerProblem(h, n)
    ctx.trace()
    ctx.states_n(1)
    what = [h, n, orders, names]
    task = tp.task_from_orders([list(o) for o in orders], names=names) \
        if names else tp.task_from_orders([list(o) for o in orders])
    check_alt(ctx, task.root, orders, names or
              [str(i) for i in range(len(orders))], what)
    check_alt(ctx, tp.alternative_combination_from_orders(orders, names),
              orders, names or [str(i) for i in range(len(orders))], what)
    s = tp.sequential_combination_from_order(orders[0])
    check_seq(ctx, s, orders[0], '', what)
    s = tp.sequential_combination_from_order(orders[0], 'x')
    check_seq(ctx, s, orders[0], '-x', what)
    p = BringNext(2., 8., 5., tp.parts, loop=False).task_to_pomdp(task)
    ctx.eq(executions(p), {tuple(map(str, o)) for o in orders},
           'executions of the model', what)


# --- stool ------------------------------------------------------------------
INF = 100.
STEPS = [   # name, durations (human, robot, error), failure, refusal
    ('Get central frame', (INF, 20., 30.), .1, .1),
    ('Hold central frame', (.01, 15., 30), .01, .1),
    ('Bring left leg', (INF, 20., 30.), .1, .1),
    ('Snap left leg', (5., INF, INF), .01, .1),
    ('Bring right leg', (INF, 20., 30.), .1, .1),
    ('Snap right leg', (5., INF, INF), .01, .1),
    ('Release central frame', (INF, 1., 1.), .1, .1),
    ('Bring top', (INF, 20., 30.), .1, .1),
    ('Snap top', (5., INF, INF), .1, .1),
]
TREE = ('Mount stool', [
    ('Mount central frame', [0, 1]),
    ('Mount legs', [('Mount left leg', [2, 3]), ('Mount right leg', [4, 5])]),
    6,
    ('Mount top', [7, 8])])


def case_stool(ctx):
    def rec(node, want):
        ctx.trans()
        ctx.states_n(1)
        if isinstance(want, int):
            ctx.ensure(isinstance(node, LeafCombination), 'not a leaf',
                       STEPS[want][0])
            a = node.action
            ctx.eq((a.name, tuple(a.durations), a.fail_proba, a.no_proba),
                   STEPS[want], 'step', want)
            return
        ctx.ensure(type(node) is SequentialCombination, 'not a sequence',
                   want[0])
        ctx.eq(node.name, want[0], 'name', want[0])
        ctx.eq(len(node.children), len(want[1]), 'number of parts', want[0])
        for c, w in zip(node.children, want[1]):
            rec(c, w)
    rec(stool.stool_task_sequential.root, TREE)
    ctx.eq((stool.T_WAIT, stool.T_ASK, stool.T_TELL, stool.C_INTR,
            stool.C_ERR, stool.INF), (1., 2., 2., 1., 5., 100.), 'costs', [])
    ctx.trace()
    for loop in (True, False):
        p = HTMToPOMDP(stool.T_WAIT, stool.T_ASK, stool.T_TELL, stool.C_INTR,
                       loop=loop).task_to_pomdp(stool.stool_task_sequential)
        pos = (p.T > 0).any(axis=0)
        s = int(np.nonzero(p.start)[0][0])
        order = []
        while p.states[s] != 'end':
            ctx.ensure(p.states[s].startswith('init-'), 'entered at %s' %
                       p.states[s], order)
            order.append(p.states[s][5:])
            ctx.ensure(len(order) <= 9, 'too many steps', order)
            own = [p.states.index(x + order[-1]) for x in ('init-', 'H-',
                                                           'R-')]
            nxt = {int(k) for j in own for k in np.nonzero(pos[j])[0]} - set(
                own)
            ctx.eq(len(nxt), 1, 'number of next steps', order)
            s = nxt.pop()
        ctx.eq(order, [x[0].lower().replace(' ', '-') for x in STEPS],
               'order of steps', loop)


def run(ctx):
    costs = [0., 1., 5., 12.5, -3.]
    for cw, cf, cc in itertools.product(costs[:ctx.pick(4, 5)], repeat=3):
        for p in ctx.pick([0., .2, .75, 1., .0004], [0., .05, .0004, .9996, .2, .5, .75, 1.]):
            for pos in (0, 1):
                ctx.run_case(case_hold, ['hold', cw, cf, cc, p, pos], ctx, cw,
                             cf, cc, p, pos)
        ctx.run_case(case_hold, ['hold', cw, cf, cc], ctx, cw, cf, cc, None,
                     2)
    for h in range(1, ctx.pick(8, 10)):
        for n in range(1, ctx.pick(8, 10)):
            ctx.run_case(case_tower, ['tower', h, n], ctx, h, n, False)
            ctx.sample(['tower', h, n])
    ctx.run_case(case_tower, ['tower'], ctx, 2, 3, True)
    for h, n in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4)):
        perms = list(itertools.permutations(range(h * n)))
        for a in perms:
            ctx.run_case(case_orders, [h, n, a], ctx, h, n, [a], None)
            for b in perms:
                if a != b:
                    for names in (None, ['x', 'y']):
                        ctx.run_case(case_orders, [h, n, a, b], ctx, h, n,
                                     [a, b], names)
    # more and longer orders
    for h, n in ((2, 3), (4, 3), (1, 7), (5, 5)):
        base = list(range(h * n))
        orders = [base[k:] + base[:k] for k in range(len(base))] + [base[::-1]]
        for k in (3, 4, len(orders)):
            for names in (None, ['n%d' % i for i in range(k)]):
                ctx.run_case(case_orders, ['more', h, n, k, names], ctx, h, n,
                             orders[:k], names)
    ctx.run_case(case_stool, ['stool'], ctx)
