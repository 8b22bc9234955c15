"""M02: JSON exchange of models and graph policies."""
import itertools
import json
import os
import shutil
import tempfile
from fractions import Fraction as F

import numpy as np

from task_models.lib.pomdp import (POMDP, GraphPolicy, GraphPolicyRunner,
                                   Impossible)

from ..models import Model, dists
from .m01 import base


def same_model(ctx, p, q, what):
    for k in ('states', 'actions', 'observations'):
        ctx.eq(list(getattr(q, k)), list(getattr(p, k)), what + ': ' + k, None)
    for k in ('T', 'O', 'R', 'start'):
        x, y = getattr(p, k), getattr(q, k)
        ctx.ensure(isinstance(y, np.ndarray) and x.shape == y.shape and
                   np.array_equal(x, y), '%s: %s is %r instead of %r' % (
                       what, k, np.asarray(y).tolist(), x.tolist()), None)
    ctx.ensure(p.discount == q.discount, what + ': discount', None)


def case_model(ctx, d, tmp):
    kw = {k: d[k] for k in ('states', 'actions', 'observations', 'values')}
    p = POMDP(d['T'], d['O'], d['R'], d['start'], d['discount'], **kw)
    path = os.path.join(tmp, 'm.json')
    same_model(ctx, p, POMDP.from_json(p.as_json()), 'text')
    p.save_as_json(path)
    q = POMDP.load_from_json(path)
    same_model(ctx, p, q, 'file')
    same_model(ctx, p, POMDP.from_dict(p.to_dict()), 'dictionary')
    same_model(ctx, p, POMDP.from_json(q.as_json()), 'second round')
    json.loads(p.as_json())
    ctx.trans(4)
    ctx.trace()


def behaviour(gp, obs, depth):
    """All observation sequences -> list of outputs."""
    r = GraphPolicyRunner(gp)
    out = []
    for n in range(depth + 1):
        for seq in itertools.product(obs, repeat=n):
            r.reset()
            o = [r.get_action()]
            for z in seq:
                try:
                    r.step(z)
                    o.append(r.get_action())
                except Impossible:
                    o.append('impossible')
                    break
            out.append(o)
    return out


def automaton(actions, obs, tr, init, depth):
    out = []
    for n in range(depth + 1):
        for seq in itertools.product(range(len(obs)), repeat=n):
            c, o = init, [actions[init]]
            for z in seq:
                c = tr[c][z]
                if c is None:
                    o.append('impossible')
                    break
                o.append(actions[c])
            out.append(o)
    return out


def same_policy(ctx, gp, actions, obs, tr, values, init, what, depth):
    ctx.eq(list(gp.actions), list(actions), what + ': actions', None)
    ctx.eq(list(gp.observations), list(obs), what + ': observations', None)
    ctx.eq(np.asarray(gp.transitions).tolist(), [list(t) for t in tr],
           what + ': transitions', None)
    ctx.ensure(np.array_equal(np.asarray(gp.values), np.asarray(values)),
               what + ': values', None)
    ctx.eq(int(gp.init), init, what + ': initial', None)
    ctx.eq(gp.n_nodes, len(actions), what + ': number of nodes', None)
    ctx.trans()
    ctx.eq(behaviour(gp, obs, depth), automaton(actions, obs, tr, init, depth),
           what + ': behaviour', None)


def case_policy(ctx, actions, obs, tr, values, init, tmp, as_start, depth):
    if as_start:
        # initial node given by a start belief
        start = np.zeros(len(values[0]))
        start[as_start - 1] = 1.
        best = [v[as_start - 1] for v in values]
        gp = GraphPolicy(actions, obs, tr, values, start=start)
        init = best.index(max(best))
    else:
        gp = GraphPolicy(actions, obs, tr, values, init=init)
    a = (actions, obs, tr, values, init)
    same_policy(ctx, gp, *a, 'constructed', 1)
    same_policy(ctx, GraphPolicy.from_json(gp.to_json()), *a, 'text', depth)
    path = os.path.join(tmp, 'p.json')
    for indent in (None, 2):
        gp.save_as_json(path, indent=indent)
        q = GraphPolicy.load_from_json(path)
        same_policy(ctx, q, *a, 'file', 0)
        same_policy(ctx, GraphPolicy.from_json(q.to_json(indent=indent)), *a,
                    'second round', 0)
    same_policy(ctx, GraphPolicy.from_dict(gp.to_dict()), *a, 'dictionary', 0)
    ctx.trace()


def refused(ctx, what, f):
    ctx.trans()
    try:
        f()
    except (ValueError, AssertionError, IndexError, KeyError, TypeError):
        return
    ctx.fail('%s not refused' % what, None)


def case_refused(ctx, n, no):
    acts = ['a%d' % i for i in range(n)]
    obs = ['o%d' % i for i in range(no)]
    val = [[1. * i, 2. - i] for i in range(n)]
    start = np.array([1., 0.])
    for rows in range(0, n + 2):
        for cols in range(0, no + 2):
            tr = [[0] * cols for _ in range(rows)]
            tr2 = [[0 if (i + j) % 2 else None for j in range(cols)]
                   for i in range(rows)]
            good = (rows, cols) == (n, no)
            for t in (tr, tr2):
                for kw in ({'init': 0}, {'start': start}):
                    if good:
                        GraphPolicy(acts, obs, t, val, **kw)
                    else:
                        refused(ctx, 'transition shape %d x %d for %d nodes '
                                'and %d observations' % (rows, cols, n, no),
                                lambda: GraphPolicy(acts, obs, t, val, **kw))
    tr = [[0] * no for _ in range(n)]
    for init in (-n - 1, -n, -1, n, n + 1):
        refused(ctx, 'initial node %d of %d' % (init, n),
                lambda: GraphPolicy(acts, obs, tr, val, init=init))
        d = GraphPolicy(acts, obs, tr, val, init=0).to_dict()
        d['initial'] = str(init)
        refused(ctx, 'read initial node %d of %d' % (init, n),
                lambda: GraphPolicy.from_dict(d))
    refused(ctx, 'neither initial node nor start',
            lambda: GraphPolicy(acts, obs, tr, val))


def run(ctx):
    ctx.assumptions = ['names are JSON strings or numbers; finite values']
    tmp = tempfile.mkdtemp()
    try:
        for a, s, o in itertools.product((1, 2, 3), repeat=3):
            for naming in ('none', 'str', 'num'):
                for k in range(ctx.pick(4, 12)):
                    for values in ('reward', 'cost'):
                        for disc in (0, 1, .95, 1. / 3):
                            d = base(a, s, o, naming, k)
                            d['values'], d['discount'] = values, disc
                            d['R'] = d['R'] / 3.
                            ctx.states_n(1)
                            ctx.run_case(case_model, [a, s, o, naming, k,
                                                      values, disc],
                                         ctx, d, tmp)
        for n in (1, 2, 3):
            for no in (1, 2, 3):
                ctx.run_case(case_refused, ['refused', n, no], ctx, n, no)
        for n, no in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)) + \
                ctx.pick((), ((3, 2), (2, 3))):
            cells = [None] + list(range(n))
            for flat in itertools.product(cells, repeat=n * no):
                tr = [list(flat[i * no:(i + 1) * no]) for i in range(n)]
                for acts in (['a%d' % i for i in range(n)], ['x'] * n):
                    for st in range(0, 3):
                        for init in range(n) if st == 0 else (0,):
                            obs = ['z%d' % i for i in range(no)]
                            val = [[.5 * i, 1. / (i + 2)] for i in range(n)]
                            ctx.states_n(1)
                            ctx.run_case(case_policy, [tr, acts, st, init],
                                         ctx, acts, obs, tr, val, init, tmp,
                                         st, ctx.pick(3, 3))
                ctx.sample(tr)
        # many nodes and observations
        for n, no in ((11, 2), (13, 12), (120, 3), (1234, 2)):
            tr = [[None if (i + j) % 7 == 3 else (5 * i + 3 * j + 1) % n
                   for j in range(no)] for i in range(n)]
            val = [[i / 3., -i / 7. + j] for i in range(n) for j in (0,)]
            for init in sorted({n - 1, 9, 10, n // 2}):
                ctx.run_case(case_policy, ['many', n, no, init], ctx,
                             ['a%d' % (i % 17) for i in range(n)],
                             ['z%d' % i for i in range(no)], tr, val, init,
                             tmp, 0, 2)
            ctx.run_case(case_policy, ['many', n, no, 'start'], ctx,
                         ['a%d' % (i % 17) for i in range(n)],
                         ['z%d' % i for i in range(no)], tr, val, 0, tmp, 1,
                         2)
        # numeric names
        ctx.run_case(case_policy, 'numeric', ctx, [3, 1], [0, 1],
                     [[None, 1], [0, 0]], [[1., 0.], [0., 1.]], 1, tmp, 0, 4)
    finally:
        shutil.rmtree(tmp)
