import itertools

from task_models.task import max_cliques, ConjugateTaskGraph
from ..graphs import A, big_graphs


def brute(adj):
    """Maximal cliques (size >= 2) by definition."""
    nodes = sorted(adj, key=str)
    cl = []
    for k in range(1, len(nodes) + 1):
        for c in itertools.combinations(nodes, k):
            if all(y in adj[x] for x, y in itertools.combinations(c, 2)):
                cl.append(frozenset(c))
    cs = set(cl)
    return {c for c in cs if len(c) >= 2 and
            not any(c < frozenset(d) for d in
                    (c | {n} for n in nodes if n not in c) if
                    frozenset(d) in cs)}


def run(ctx):
    names = ['e', 'b', 'd', 'a', 'c', 'f']

    def undirected(kind, n, bits):
        nodes = kind[:n]
        pairs = list(itertools.combinations(range(n), 2))
        adj = {x: set() for x in nodes}
        for (i, j), b in zip(pairs, bits):
            if b:
                adj[nodes[i]].add(nodes[j])
                adj[nodes[j]].add(nodes[i])
        copy = {k: set(v) for k, v in adj.items()}
        got = [frozenset(c) for c in max_cliques(adj)]
        case = [n, bits, str(nodes)]
        ctx.ensure(len(got) == len(set(got)), 'clique reported twice', case)
        ctx.eq(set(got), brute(copy), 'maximal cliques', case)
        ctx.eq(adj, copy, 'graph changed', case)
        ctx.trans(len(got) + 1)
        ctx.trace()
    kinds = [names, [3, 1, 4, 0, 5, 9], [A(x) for x in names]]
    for n in range(0, ctx.pick(6, 7)):
        m = n * (n - 1) // 2
        for bits in itertools.product([0, 1], repeat=m):
            for i, kind in enumerate(kinds):
                if n == 6 and i:
                    continue
                ctx.states_n(1)
                ctx.run_case(undirected, [i, n, bits], kind, n, bits)
        ctx.sample({'nodes': n, 'graphs': 2 ** m})

    def directed(edges, case):
        ctg = ConjugateTaskGraph()
        adj = {}
        for x, l, y in edges:
            ctg.add_transition(x, l, y)
            adj.setdefault(x, set())
            adj.setdefault(y, set())
        pairs = {(x, y) for x, _, y in edges}
        for x, y in pairs:
            if x != y and (y, x) in pairs:
                adj[x].add(y)
        before = set(ctg.all_transitions())
        got = [frozenset(c) for c in ctg.get_max_cliques()]
        ctx.ensure(len(got) == len(set(got)), 'clique reported twice', case)
        ctx.eq(set(got), brute(adj), 'maximal cliques of conjugate', case)
        ctx.eq(set(ctg.all_transitions()), before, 'graph changed', case)
        ctx.trans(len(got) + 1)
        ctx.trace()
    acts = [A(x) for x in 'pqrs']
    # 3 nodes: per ordered pair (self included) no edge, label x, labels x & y
    n = 3
    pairs = [(i, j) for i in range(n) for j in range(n)]
    for m in itertools.product([0, 1, 2], repeat=len(pairs)):
        edges = []
        for (i, j), k in zip(pairs, m):
            edges += [(acts[i], l, acts[j]) for l in ['x', 'y'][:k]]
        ctx.states_n(1)
        ctx.run_case(directed, m, edges, [n, m])
    # 4 nodes
    n = 4
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for bits in itertools.product([0, 1], repeat=len(pairs)):
        for loops in (itertools.product([0, 1], repeat=n) if ctx.thorough
                      else [(0,) * n, (1, 0, 1, 0)]):
            edges = [(acts[i], 'l%d' % i, acts[j])
                     for (i, j), b in zip(pairs, bits) if b]
            edges += [(acts[i], 'z', acts[i])
                      for i, b in enumerate(loops) if b]
            ctx.states_n(1)
            ctx.run_case(directed, [bits, loops], edges, [n, bits, loops])
    # larger graphs
    many = ['n%d' % i for i in range(12)]
    for name, n, und in big_graphs(ctx.thorough):
        bits = [int(e in set(und) or e[::-1] in set(und))
                for e in itertools.combinations(range(n), 2)]
        ctx.states_n(2)
        ctx.run_case(undirected, [name], many, n, bits)
        edges = []
        for i, (x, y) in enumerate(und):
            edges += [(A(many[x]), 'l%d' % (i % 3), A(many[y])),
                      (A(many[y]), 'm', A(many[x]))]
        ctx.run_case(directed, ['directed', name], edges, [name])
        # one direction only for some pairs
        ctx.run_case(directed, ['partly', name],
                     [e for i, e in enumerate(edges) if i % 5 != 2], [name])
    # initial and terminal markers among the nodes
    I, T = ConjugateTaskGraph.initial, ConjugateTaskGraph.terminal
    for bits in itertools.product([0, 1], repeat=8):
        x, y = acts[:2]
        cand = [(I, 's', x), (x, 's', y), (y, 's', x), (x, 't', T),
                (y, 't', T), (x, 'u', x), (x, 'b', I), (T, 'b', y)]
        edges = [e for e, b in zip(cand, bits) if b]
        ctx.states_n(1)
        ctx.run_case(directed, bits, edges, ['markers', bits])
