"""P02: action selection at search nodes."""
import itertools
import math

import numpy as np

from task_models.lib.pomcp import _SearchObservationNode

from ..randomness import distribution, dist_diff


class Belief(object):
    array = np.array([1.])

    def to_list(self):
        return [1.]


def build(n, stats, alpha):
    """stats: per action None | (visits, value[, looked up below]); n: visits
    of the node."""
    node = _SearchObservationNode(Belief(), len(stats), alpha=alpha)
    for a, st in enumerate(stats):
        if st is None:
            continue
        c = node.safe_get_child(a)
        for _ in range(st[0]):
            c.update(st[1])
        if len(st) > 2:     # never tried, but looked up with get_node
            c.children[0] = _SearchObservationNode(Belief(), 2, alpha=alpha)
    for i in range(n):
        node.update(float(i))
    return node


def formula(n, stats, c, rel):
    vs = [v for _, v in stats]
    if rel:
        c = c * (max(vs) - min(vs))
    return [v + c * math.sqrt(math.log(n) / k) for k, v in stats]


def case(ctx, n, stats, cs, alpha):
    node = build(n, stats, alpha)
    ctx.states_n(1)
    untried = [a for a, s in enumerate(stats) if s is None or s[0] == 0]
    for c, rel in cs:
        def choose():
            if c is None:
                return int(node.get_best_action())
            return int(node.get_best_action(exploration=c,
                                            relative_exploration=rel))
        got = distribution(choose, stats=ctx)
        case_ = {'visits': n, 'stats': stats, 'exploration': c, 'rel': rel}
        if untried:
            want = {a: 1. / len(untried) for a in untried}
            d = dist_diff(got, want)
            ctx.ensure(d is None, 'untried %r: %s' % (untried, d), case_)
            continue
        f = formula(n, stats, c or 0., rel)
        best = [a for a, x in enumerate(f) if x >= max(f) - 1e-9]
        # equal statistics: the first one of these
        first = {a for a in best
                 if not any(stats[b] == stats[a] for b in best if b < a)}
        if not c or alpha != .001 and rel and len(
                {v for _, v in stats}) == 1:   # exact comparison of values
            first = {min(best)}
        ctx.ensure(len(got) == 1 and set(got) <= first,
                   'chose %r, expected the first of %r (formula: %r)' % (
                       got, best, f), case_)
    vals = [c.value for c in node.children if c is not None]
    want = [s[1] if s[0] else 0. for s in stats if s is not None]
    ctx.ensure(len(vals) == len(want) and np.allclose(vals, want),
               'choosing changed values', None)
    ctx.eq([c.n_simulations for c in node.children if c is not None],
           [s[0] for s in stats if s is not None], 'choosing changed visits',
           None)
    ctx.eq(node.n_simulations, n, 'choosing changed visits of node', None)


def run(ctx):
    ctx.assumptions = ['float ties between different statistics (within '
                       '1e-9) may be broken either way']
    cs = [(c, r) for c in (0, .3, 1., 2, 100) for r in (False, True)]
    cs = [(None, False)] + cs
    vals = (0., 1., -2., 1.5, 40.)
    tried = [(k, v) for k in (1, 2, 3) for v in vals]
    if ctx.thorough:
        tried += [(7, v) for v in vals] + [(k, -50.) for k in (1, 2)]
    every = [None, (0, 0.), (0, 0., 1)] + tried
    for s in every:
        for extra in (0, 2):
            ctx.run_case(case, [1, s, extra], ctx,
                         (s[0] if s else 0) + extra, (s,), cs, 0.)
    for st in itertools.product(every, repeat=2):
        n = sum(s[0] for s in st if s)
        for extra in (0, 1, 10) + ((1 - n, 2 - n) if n > 2 else ()):
            ctx.run_case(case, [2, st, extra], ctx, n + extra, st, cs, 0.)
    small = [None, (0, 0.), (0, 0., 1)] + [(k, v) for k in ctx.pick((1, 3), (1, 2, 3))
                               for v in (0., 1., -2.)]
    for st in itertools.product(small, repeat=3):
        n = sum(s[0] for s in st if s)
        # fewer visits than tried actions: values shared between histories
        for extra in (0, 5) + ((1 - n, 2 - n) if n > 2 else ()):
            ctx.run_case(case, [3, st, extra], ctx, n + extra, st, cs,
                         .25 if extra else 0.)
        ctx.sample([st, n])
    for st in itertools.product([None, (1, 0.), (2, 1.)], repeat=5):
        n = sum(s[0] for s in st if s)
        ctx.run_case(case, [5, st], ctx, n, st, cs[:4], .001)
    # many actions
    for k in (7, 12, 40):
        new = [[None] * k, [(0, 0.)] * k, [None, (0, 0.)] * (k // 2) + [None]]
        for i in range(k):
            a = [(1 + j % 3, float(j % 5)) for j in range(k)]
            new.append(list(a))
            new[-1][i] = None
            new.append(list(a))
            new[-1][i] = (0, 0., 1)
            new.append([None] * i + a[i:])
            new.append(a[:i] + [(0, 0.)] * (k - i))
            new.append(list(a))
            new[-1][i] = (2, 9.)
        for st in new:
            n = sum(s[0] for s in st if s)
            ctx.run_case(case, [k, st], ctx, n, tuple(st), cs[:4], 0.)
