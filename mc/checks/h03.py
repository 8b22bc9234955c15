import itertools

import numpy as np

from task_models.task import (LeafCombination, AlternativeCombination,
                              AbstractAction)
from ..leaves import KINDS
from ..trees import shapes, build, walk, show, LARGE, LARGER
from .h02 import snapshot, check_copy


def valid(p):
    return min(p) >= 0 and max(p) <= 1 and abs(sum(p) - 1) < 1e-6


def run(ctx):
    grid = [-.25, 0, .25, .5, .75, 1, 1.25]

    def leaf(i):
        return LeafCombination(AbstractAction('l%d' % i))

    def probas(k, p, typ):
        case = [k, p, typ.__name__]
        ch = [leaf(i) for i in range(k)]
        given = typ(p)
        ok = valid(p)
        uniform = [1. / k] * k

        def same(a, b):
            return len(a) == len(b) and all(abs(x - y) < 1e-12
                                            for x, y in zip(a, b))
        try:
            alt = AlternativeCombination(ch, probabilities=given)
            ctx.ensure(ok, 'invalid probabilities accepted at construction',
                       case)
            ctx.ensure(same(alt.proba, p), 'given probabilities not kept: %r'
                       % (list(alt.proba),), case)
        except ValueError:
            ctx.ensure(not ok, 'valid probabilities refused', case)
        alt = AlternativeCombination(ch, name='x')
        ctx.ensure(same(alt.proba, uniform), 'default not uniform', case)
        try:
            alt.proba = given
            ctx.ensure(ok, 'invalid probabilities accepted', case)
            ctx.ensure(same(alt.proba, p), 'assigned probabilities not kept',
                       case)
            cp = alt.deep_copy()
            ctx.ensure(same(cp.proba, p), 'copied probabilities', case)
            cp2 = cp.deep_copy('{}-2')
            ctx.ensure(same(cp2.proba, p), 'probabilities of a copied copy',
                       case)
        except ValueError:
            ctx.ensure(not ok, 'valid probabilities refused', case)
            ctx.ensure(same(alt.proba, uniform), 'refused probabilities '
                       'stored', case)
        alt.proba = None
        ctx.ensure(same(alt.proba, uniform), 'reset is not uniform', case)
        ctx.trans(4)
        ctx.trace()
    for k in range(1, ctx.pick(4, 5)):
        for p in itertools.product(grid, repeat=k):
            for typ in (list, tuple, np.array):
                ctx.states_n(1)
                ctx.run_case(probas, [k, p, typ.__name__], k, list(p), typ)
    # finer: all compositions of 1 in tenths, and near misses
    for k in (2, 3, 4):
        for c in itertools.product(range(0, 11), repeat=k - 1):
            if sum(c) > 10:
                continue
            p = [x / 10. for x in c] + [(10 - sum(c)) / 10.]
            ctx.states_n(2)
            ctx.run_case(probas, [k, p], k, p, list)
            q = list(p)
            q[0] = q[0] - .05
            ctx.run_case(probas, [k, q], k, q, list)

    # many branches, fine probabilities, small mistakes
    for k in (5, 6, 7, 12, 40, 150):
        w = [(i * i + 3) % 17 + .123456789 for i in range(k)]
        fine = [x / sum(w) for x in w]
        one = [0.] * (k - 1) + [1.]
        rare = [1 - 1e-6] + [0.] * (k - 2) + [1e-6]
        third = [1. / 3, 2. / 3] + [0] * (k - 2)
        for p in (fine, one, rare, third, fine[::-1]):
            for typ in (list, tuple, np.array):
                ctx.states_n(1)
                ctx.run_case(probas, ['many', k, p], k, list(p), typ)
            for e in (1e-3, -1e-3, .02, -.02):
                # wrong sum; right sum with one out of bounds
                q = list(p)
                q[1] += e
                ctx.run_case(probas, ['sum', k, q], k, q, list)
                q[0] -= e
                if not any(-1e-9 < x < 0 or 1 < x < 1 + 1e-9 for x in q):
                    ctx.run_case(probas, ['shift', k, q], k, q, list)
    for p in ([-1e-4, .5, .5001], [1.0001, -.0001], [-.0005, 1.0005],
              [.999, 0.], [1.001, 0.], [.3334, .3334, .3334],
              [.123456, .876544]):
        ctx.run_case(probas, ['mistake', p], len(p), p, list)
    # assignment histories
    ops = [None, [.25, .75], [1, 0], [2, -1], [.5, .6], [.3, .3]]

    def history(h):
        alt = AlternativeCombination([leaf(0), leaf(1)])
        cur = [.5, .5]
        for p in h:
            try:
                alt.proba = p
                ctx.ensure(p is None or valid(p), 'accepted', h)
                cur = [.5, .5] if p is None else p
            except ValueError:
                ctx.ensure(p is not None and not valid(p), 'refused', h)
            ctx.eq([float(x) for x in alt.proba], [float(x) for x in cur],
                   'current probabilities', h)
            ctx.eq([float(x) for x in alt.deep_copy().proba],
                   [float(x) for x in cur], 'copied', h)
            ctx.trans(2)
        ctx.trace()
    for h in itertools.product(ops, repeat=3):
        ctx.states_n(1)
        ctx.run_case(history, h, h)

    # copies of whole trees
    fmts = ['{}', 'x-{}', '{} y', '<{}>']

    def pr(k):
        return None if k < 2 else [.25] + [.75 / (k - 1)] * (k - 1)

    def copies(t, kind, fmt, hl, case):
        root = build(t, KINDS[kind], proba=pr, highlight=hl)
        before = snapshot(root)
        new = root.deep_copy(fmt) if fmt != '{}' else root.deep_copy()
        check_copy(ctx, root, new, fmt.format, case)
        ids = {id(x) for x in walk(root)}
        ctx.ensure(not any(id(x) in ids for x in walk(new)), 'node shared',
                   case)
        new2 = new.deep_copy(rename_format='2{}')
        check_copy(ctx, new, new2, '2{}'.format, case)
        for x in walk(new):
            x.highlighted = True
            if isinstance(x, LeafCombination):
                x.action.name = 'touched'
            elif isinstance(x, AlternativeCombination):
                x.proba = None
                x.children.append(leaf(9))
        ctx.eq(snapshot(root), before, 'original changed', case)
        ctx.trace()
    hls = [lambda k: False, lambda k: k % 2 == 0, lambda k: k % 2 == 1]
    for n in range(1, ctx.pick(4, 5) + 1):
        for t in (shapes(n, ctx.pick(2, 3), True) if n < 3 else
                  shapes(n, 2 if n > 3 and not ctx.thorough else 3)):
            for kind in (sorted(KINDS) if n < 4 else ['collaborative']):
                for fmt in (fmts if n < 4 else fmts[1:2]):
                    for h, hl in enumerate(hls):
                        if h and (n > 3 or fmt != 'x-{}'):
                            continue
                        case = [show(t), kind, fmt, h]
                        ctx.states_n(1)
                        ctx.sample(case)
                        ctx.run_case(copies, case, t, kind, fmt, hl, case)
    # large trees, all kinds of leaves
    for k, t in enumerate(LARGE + LARGER + [('A', ('L',) * 120),
                                            ('P', ('L',) * 60)]):
        kind = sorted(KINDS)[k % len(KINDS)]
        case = ['large', show(t), kind]
        ctx.states_n(1)
        ctx.run_case(copies, case, t, kind, fmts[1 + k % 3], hls[1], case)
