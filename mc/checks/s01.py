import itertools

import numpy as np

from task_models.state import NDimensionalState
from task_models.action import (Condition, MatchAllCondition,
                                PrePostConditionAction, Action)


def run(ctx):
    dim = ctx.pick(3, 4)
    dom = [0, 1, 2]
    masks = list(itertools.product([0, 1], repeat=dim))
    vals = list(itertools.product(dom, repeat=dim))
    states = [(v, NDimensionalState(np.array(v))) for v in vals]
    conds = []

    def condition(m, v, dt):
        case = [m, v, str(dt)]
        ok = all(mm or not vv for mm, vv in zip(m, v))
        mask, value = np.array(m, dtype=dt), np.array(v, dtype=dt)
        try:
            c = Condition(mask, value)
            ctx.ensure(ok, 'value on masked feature accepted', case)
        except ValueError:
            ctx.ensure(not ok, 'valid condition refused', case)
            ctx.trans()
            return
        for s, st in states:
            want = all((not mm) or x == vv for mm, vv, x in zip(m, v, s))
            ctx.eq(bool(c.check(st)), want, 'condition on %s' % (s,), case)
            ctx.eq(tuple(st.get_features()), s, 'state changed', case)
        ctx.eq((tuple(mask), tuple(value)), (m, v), 'arrays changed', case)
        ctx.trans(len(states))
        ctx.trace()
        if dt is int:
            conds.append((m, v, c))
    for m in masks:
        for v in vals:
            for dt in (int, float):
                ctx.states_n(1)
                ctx.sample([m, v])
                ctx.run_case(condition, [m, v], m, v, dt)
    neg = [-1, .5]
    for m in masks:
        for i in range(dim):
            for x in neg:
                v = [0] * dim
                v[i] = x

                def go():
                    try:
                        c = Condition(np.array(m), np.array(v))
                        ctx.ensure(m[i], 'masked value accepted', [m, v])
                        ctx.eq(bool(c.check(NDimensionalState(np.array(v)))),
                               True, 'check', [m, v])
                        w = list(v)
                        w[i] = 0
                        ctx.eq(bool(c.check(NDimensionalState(np.array(w)))),
                               False, 'check', [m, v])
                    except ValueError:
                        ctx.ensure(not m[i], 'refused', [m, v])
                ctx.states_n(1)
                ctx.run_case(go, [m, v])
    # values that are close to each other
    near = [0, 1e-12, 1e-9, 1e-6, 1, 1 + 1e-9, 1e6, 1e6 + 1, 1e12, 1e12 + 1]

    def close_values(x, y, i):
        m, v = [0] * dim, [0.] * dim
        m[i], v[i] = 1, x
        c = Condition(np.array(m), np.array(v))
        s = [7.] * dim
        s[i] = y
        ctx.eq(bool(c.check(NDimensionalState(np.array(s)))), x == y,
               'condition', [v, s])
        ctx.trans()
    for x in near:
        for y in near:
            for i in range(dim):
                ctx.states_n(1)
                ctx.run_case(close_values, [x, y, i], x, y, i)
    # cancelling masked values
    for m in masks:
        free = [i for i in range(dim) if not m[i]]
        for i, j in itertools.combinations(free, 2):
            v = [0] * dim
            v[i], v[j] = 1, -1

            def go2():
                try:
                    Condition(np.array(m), np.array(v))
                except ValueError:
                    return
                ctx.fail('masked values accepted', [m, v])
            ctx.run_case(go2, [m, v])

    # pre/post
    some = conds[::ctx.pick(9, 11)] + [(None, None, MatchAllCondition())]
    sts = states[::2]

    def accepts(c, s):
        return c[0] is None or all((not mm) or x == vv
                                   for mm, vv, x in zip(c[0], c[1], s))

    def action(c1, c2):
        case = [c1[:2], c2[:2]]
        a = PrePostConditionAction(c1[2], c2[2], name='act')
        ctx.ensure(isinstance(a, Action) and a.name == 'act' and
                   str(a) == 'act', 'name', case)
        for s1, x in sts:
            p = accepts(c1, s1)
            for s2, y in sts:
                ctx.eq(bool(a.check(x, y)), p and accepts(c2, s2),
                       'action on %s -> %s' % (s1, s2), case)
        ctx.trans(len(sts) ** 2)
        ctx.trace()
    for c1 in some:
        for c2 in some:
            ctx.states_n(1)
            ctx.run_case(action, [c1[:2], c2[:2]], c1, c2)
    m = MatchAllCondition()

    def match():
        for s, st in states:
            ctx.ensure(bool(m.check(st)), 'match-all refuses', s)
    ctx.run_case(match, 'match-all')
    ctx.trans(len(states))

    # actions without conditions of their own
    def free():
        from task_models import bring_next_to_pomdp, supportive, task_to_pomdp
        from task_models.task import AbstractAction, MetaAction
        a, b = AbstractAction('a'), AbstractAction('b')
        for act in (a, task_to_pomdp.CollaborativeAction('c', (1., 2., 3.)),
                    bring_next_to_pomdp.CollaborativeAction('d', 'x'),
                    supportive.AssembleFoot('e'),
                    supportive.AssembleLeg('f'), MetaAction('sequence', [a, b]),
                    MetaAction('parallel', [b, a])):
            for s1, x in states:
                for s2, y in sts:
                    ctx.ensure(bool(act.check(x, y)), '%r refuses' % act.name,
                               [s1, s2])
            ctx.trans(len(states) * len(sts))
            ctx.trace()
    ctx.run_case(free, 'free')
