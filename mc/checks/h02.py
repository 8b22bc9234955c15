import itertools
import math

from task_models.task import (LeafCombination, SequentialCombination,
                              AlternativeCombination, ParallelCombination)
from ..leaves import KINDS, same_data
from ..trees import shapes, build, walk, show, CLS


def snapshot(node):
    """Everything observable about a tree, with identities."""
    if isinstance(node, LeafCombination):
        d = {k: (v if not hasattr(v, 'tolist') else str(v.tolist()))
             for k, v in vars(node.action).items()}
        return ('leaf', id(node), id(node.action), node.name,
                node.highlighted, repr(sorted(d.items(), key=str)))
    return (node.kind, id(node), node.name, node.highlighted,
            None if node.proba is None else list(node.proba),
            [snapshot(c) for c in node.children])


def check_copy(ctx, orig, new, rename, case):
    """new must be a copy of orig with names through rename."""
    ctx.ensure(new is not orig, 'node shared', case)
    ctx.ensure(type(new) is type(orig), 'kind changed: %s' %
               type(new).__name__, case)
    ctx.eq(new.name, rename(orig.name), 'name of copy', case)
    ctx.eq(bool(new.highlighted), bool(orig.highlighted), 'highlighting',
           case)
    ctx.trans()
    if isinstance(orig, LeafCombination):
        ctx.ensure(new.action is not orig.action, 'action shared', case)
        d = same_data(orig.action, new.action, rename)
        ctx.ensure(d is None, 'leaf action data: %s' % d, case)
    else:
        ctx.eq(len(new.children), len(orig.children), 'number of children',
               case)
        po = None if orig.proba is None else [float(x) for x in orig.proba]
        pn = None if new.proba is None else [float(x) for x in new.proba]
        ctx.eq(pn, po, 'branch probabilities', case)
        for o, n in zip(orig.children, new.children):
            check_copy(ctx, o, n, rename, case)


def expansion(ctx, par, case):
    before = snapshot(par)
    alt = par.to_alternative()
    ctx.trans()
    ctx.eq(snapshot(par), before, 'original changed', case)
    ctx.ensure(type(alt) is AlternativeCombination, 'not an alternative',
               case)
    ctx.eq(alt.name, par.name, 'name', case)
    ctx.eq(bool(alt.highlighted), bool(par.highlighted), 'highlighting', case)
    n = len(par.children)
    ctx.eq(len(alt.children), math.factorial(n), 'number of orders', case)
    f = 1. / len(alt.children)
    ctx.ensure(len(alt.proba) == len(alt.children) and
               all(abs(p - f) < 1e-12 for p in alt.proba),
               'orders not equally likely', case)
    ids = {id(x) for x in walk(par)} | {
        id(x.action) for x in walk(par) if isinstance(x, LeafCombination)}
    found = set()
    names = set()
    for seq in alt.children:
        ctx.ensure(type(seq) is SequentialCombination, 'order is not a '
                   'sequence', case)
        ctx.eq(len(seq.children), n, 'length of order', case)
        order = []
        for c in seq.children:
            idx = [i for i, o in enumerate(par.children)
                   if c.name == o.name or c.name.startswith(o.name + ' ')]
            ctx.eq(len(idx), 1, 'original of child %s' % c.name, case)
            o = par.children[idx[0]]
            order.append(idx[0])
            suffix = c.name[len(o.name):]
            check_copy(ctx, o, c, lambda s: s + suffix, case)
            for x in walk(c):
                ctx.ensure(id(x) not in ids, 'node shared', case)
                ids.add(id(x))
                if isinstance(x, LeafCombination):
                    ctx.ensure(id(x.action) not in ids, 'action shared', case)
                    ids.add(id(x.action))
                    ctx.ensure(n == 1 or x.name not in names,
                               'leaf name %s repeated' % x.name, case)
                    names.add(x.name)
        ctx.ensure(tuple(order) not in found, 'order twice', case)
        ctx.ensure(id(seq) not in ids, 'sequence shared', case)
        ids.add(id(seq))
        found.add(tuple(order))
    snames = [s.name for s in alt.children]
    ctx.eq(len(set(snames)), len(snames), 'sequence names distinct', case)
    ctx.eq(found, set(itertools.permutations(range(n))), 'orders', case)
    # copies are really independent: changing them leaves the original alone
    for x in walk(alt):
        x.highlighted = 'touched'
        if isinstance(x, LeafCombination):
            x.action.name = 'touched'
            x.action.agent = 'touched'
    ctx.eq(snapshot(par), before, 'original changed through a copy', case)
    ctx.trace()


def run(ctx):
    hls = [lambda k: False, lambda k: k % 2 == 0, lambda k: k % 2 == 1]

    def pr(k):
        return None if k < 2 else [.5] + [.5 / (k - 1)] * (k - 1)

    maxn = ctx.pick(4, 5)
    for kind in sorted(KINDS):
        for n in range(1, maxn + 1):
            if n == 5 and kind not in ('abstract', 'collaborative'):
                continue
            for t in shapes(n, 2, True) if n < 4 else shapes(n, 2):
                if t == 'L' or t[0] != 'P':
                    continue
                for h, hl in enumerate(hls):
                    if h and n > 3:
                        continue
                    case = [kind, show(t), h]
                    ctx.states_n(1)
                    ctx.sample(case)

                    def go():
                        par = build(t, KINDS[kind], proba=pr, highlight=hl)
                        expansion(ctx, par, case)
                    ctx.run_case(go, case)
    # many children, many leaves
    for t in [('P', ('L',) * 5), ('P', ('L',) * 7), ('P', (('S', ('L', 'L')),) * 5),
              ('P', (('A', ('L',) * 7), ('P', ('L', 'L')), 'L'))] + (
            [('P', ('L',) * 6), ('P', ('L',) * 8), ('P', (('P', ('L',) * 4),) * 4)]
            if ctx.thorough else []):
        case = ['many', show(t)]

        def go():
            expansion(ctx, build(t, KINDS['abstract'], proba=pr,
                                 highlight=hls[1]), case)
        ctx.states_n(1)
        ctx.run_case(go, case)
    # nested parallel nodes found anywhere, expansions of expansions
    for t in shapes(3, 3):
        case = ['nested', show(t)]

        def go():
            root = build(t, KINDS['collaborative'], proba=pr)
            for x in list(walk(root)):
                if isinstance(x, ParallelCombination):
                    expansion(ctx, x, case)
            if isinstance(root, ParallelCombination):
                alt = root.to_alternative()
                for x in list(walk(alt)):
                    if isinstance(x, ParallelCombination):
                        expansion(ctx, x, case)
        ctx.states_n(1)
        ctx.run_case(go, case)
