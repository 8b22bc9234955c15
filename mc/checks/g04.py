import itertools

from task_models.task import ConjugateTaskGraph, TaskGraph
from ..graphs import A, S, Rel, show, big_graphs

I = ConjugateTaskGraph.initial


def reference(edges):
    succ, pred, nodes = {}, {}, {I}
    for s, _, d in edges:
        succ.setdefault(s, set()).add(d)
        pred.setdefault(d, set()).add(s)
        nodes |= {s, d}
    reach, todo = {I}, [I]
    while todo:
        for m in succ.get(todo.pop(), ()):
            if m not in reach:
                reach.add(m)
                todo.append(m)
    nxt = {}
    for u in reach:
        if len(succ.get(u, ())) == 1:
            v = next(iter(succ[u]))
            if v != u and len(pred[v]) == 1:
                nxt[u] = v
    heads = set(nxt) - set(nxt.values())
    out = set()
    for h in heads:
        c = [h]
        while c[-1] in nxt:
            c.append(nxt[c[-1]])
        out.add(tuple(c))
    return out


def check(ctx, edges, case):
    ctg = ConjugateTaskGraph()
    for e in edges:
        ctg.add_transition(*e)
    before = set(ctg.all_transitions())
    got = []
    for c in ctg.get_max_chains():
        got.append(tuple(c))
        if len(got) > 50 + len(edges):
            ctx.fail('chain search does not terminate / repeats', case)
    want = reference(edges)
    ctx.ensure(len(got) == len(set(got)), 'chain reported twice: %r' % (got,),
               case)
    ctx.eq(set(got), want, 'maximal chains', case)
    ctx.eq(set(ctg.all_transitions()), before, 'graph changed', case)
    ctx.trans(len(got) + 1)
    ctx.trace()


def run(ctx):
    ctx.case_cpu = 20.
    acts = [A(x) for x in 'pqrs']
    for n, loops in [(0, 1), (1, 1), (2, 1), (3, 1), (4, 0)] + (
            [(4, 1)] if ctx.thorough else []):
        ns = acts[:n]
        pairs = [(I, x) for x in ns] + [
            (x, y) for x in ns for y in ns if loops or x is not y]
        ini = n
        for bits in itertools.product([0, 1], repeat=len(pairs)):
            if n == 4 and not loops and not ctx.thorough:
                # wlog (node names are permuted by the rest) initial leads to
                # a prefix of the nodes
                if list(bits[:ini]) != sorted(bits[:ini], reverse=True):
                    continue
            edges = [(x, 'l', y) for (x, y), b in zip(pairs, bits) if b]
            ctx.states_n(1)
            ctx.run_case(check, [n, bits], ctx, edges, [n, bits])
        ctx.sample({'inner nodes': n, 'pairs': len(pairs)})
    # parallel edges with different labels
    n = 2
    pairs = [(I, x) for x in acts[:2]] + [(x, y) for x in acts[:2]
                                          for y in acts[:2]]
    for m in itertools.product([0, 1, 2], repeat=len(pairs)):
        edges = []
        for (x, y), k in zip(pairs, m):
            edges += [(x, l, y) for l in ['l', 'm'][:k]]
        ctx.states_n(1)
        ctx.run_case(check, m, ctx, edges, ['labels', m])
    # long thin graphs: cycle of length k entered by a tail of length t and
    # left after e nodes by a tail
    names = [A('n%d' % i) for i in range(14)]
    for k in range(0, 6):
        for t in range(0, 4):
            for e in range(0, max(1, k)):
                for tail in range(0, 4):
                    ns = list(names)
                    edges, cur = [], I
                    for _ in range(t):
                        x = ns.pop()
                        edges.append((cur, 's', x))
                        cur = x
                    cyc = [ns.pop() for _ in range(k)]
                    if cyc:
                        edges.append((cur, 's', cyc[0]))
                        for x, y in zip(cyc, cyc[1:] + cyc[:1]):
                            edges.append((x, 's', y))
                        cur = cyc[e]
                    for _ in range(tail):
                        x = ns.pop()
                        edges.append((cur, 's', x))
                        cur = x
                    ctx.states_n(1)
                    case = ['lasso', k, t, e, tail]
                    ctx.run_case(check, case, ctx, edges, case)
    # larger graphs
    many = [A('n%d' % i) for i in range(80)]

    def large(name, pairs):
        edges = [(I if x == 0 else many[x], 'l', I if y == 0 else many[y])
                 for x, y in pairs if y != 0]  # nothing leads to I
        ctx.states_n(1)
        ctx.run_case(check, ['large', name], ctx, edges, ['large', name])
    for n in (7, 12, 30, 70):
        line = [(i, i + 1) for i in range(n)]
        large('line %d' % n, line)
        for back in (1, 2, n // 2, n - 1, n):
            large('line %d back to %d' % (n, back), line + [(n, back)])
            large('line %d jump to %d' % (n, back), line + [(0, back)])
        for w in (2, 3):
            # a line that forks into lines, which fork and join again
            fork = list(line)
            for j in range(w):
                at = [n] + [n + 1 + 3 * j + i for i in range(3)]
                fork += list(zip(at, at[1:]))
            large('line %d fork %d' % (n, w), fork)
            large('line %d fork %d join' % (n, w), fork + [
                (n + 3 + 3 * j, 79) for j in range(w)] + [(79, n // 2)])
        for w in (2, 3, 5, 9):
            # w branches of equal lengths, joined or not
            k = max(1, (n - 1) // w)
            ends = []
            pairs = []
            for j in range(w):
                at = [1 + j * k + i for i in range(k)]
                pairs += [(0, at[0])] + list(zip(at, at[1:]))
                ends.append(at[-1])
            large('%d branches %d' % (w, n), pairs)
            large('%d joined branches %d' % (w, n),
                  pairs + [(e, 79) for e in ends] + [(79, 78), (78, 77)])
        for w in (2, 3):
            tree = [((i - 1) // w, i) for i in range(1, n)]
            large('tree %d %d' % (w, n), tree)
            large('stretched tree %d %d' % (w, n), [
                p for a, b in tree[:n // 2]
                for p in ((a, b + 40), (b + 40, b))] if n < 60 else tree)
    for name, n, und in big_graphs(ctx.thorough):
        if n > 8 and not name.startswith('mixed') or \
                name.startswith('core'):
            continue
        for k, keep in enumerate((lambda x, y: True,
                                  lambda x, y: (x + y) % 3,
                                  lambda x, y: (x * y) % 4 == 0)):
            large(name + ' %d' % k, [(x, y) for x, y in und if keep(x, y)])
            # edges in both directions, none into the initial node
            large(name + ' both %d' % k, [(x, y) for x, y in und
                                          if keep(x, y)] + [
                (y, x) for x, y in und if x and not keep(x, y + 1)])
    # conjugates of demonstrations: all action words (repetitions allowed)
    full = {(x, y) for x in range(12) for y in range(12)}
    R = [Rel(c, full) for c in 'abc']
    for k in range(1, ctx.pick(6, 8)):
        for word in itertools.product(range(3), repeat=k):
            tg = TaskGraph()
            path = [S(0)]
            for i, c in enumerate(word):
                path += [R[c], S(i + 1)]
            tg.add_path(path)
            edges = list(tg.conjugate().all_transitions())
            ctx.states_n(1)
            ctx.run_case(check, ['word', word], ctx, edges, ['word', word])
