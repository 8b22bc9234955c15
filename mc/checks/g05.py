import itertools

from task_models.task import (BaseGraph, ConjugateTaskGraph, TaskGraph,
                              MetaAction, LeafCombination,
                              SequentialCombination, ParallelCombination,
                              AlternativeCombination)
from ..graphs import A, S, Rel, show
from .g03 import brute
from .g04 import reference as ref_chains

I, T = ConjugateTaskGraph.initial, ConjugateTaskGraph.terminal


def ref_compact(edges, nodes, new):
    out = set()
    for s, l, d in edges:
        a, b = s in nodes, d in nodes
        if a and b:
            continue
        if not a and not b:
            out.add((s, l, d))
        else:
            out.add((new if a else s, '', new if b else d))
    return out


def leaves_of(x):
    if isinstance(x, MetaAction):
        return [l for a in x.actions for l in leaves_of(a)]
    return [x]


KIND = {'sequence': SequentialCombination, 'parallel': ParallelCombination,
        'alternative': AlternativeCombination}


def check_comb(ctx, node, meta, case):
    """node must be the combination of the meta action."""
    if isinstance(meta, MetaAction):
        ctx.ensure(type(node) is KIND[meta.kind], 'combination kind %s for %s'
                   % (type(node).__name__, meta.kind), case)
        ctx.eq(len(node.children), len(meta.actions), 'number of children',
               case)
        for c, m in zip(node.children, meta.actions):
            check_comb(ctx, c, m, case)
    else:
        ctx.ensure(isinstance(node, LeafCombination), 'leaf expected', case)
        ctx.ensure(node.action is meta or node.action == meta,
                   'leaf action', case)
        ctx.eq(node.name, meta.name, 'leaf name', case)


def edges_of(g):
    return set(g.all_transitions())


def run(ctx):
    # 1. compaction of every node subset of every small labelled graph
    def compact(cls, edges, nodes, new, as_list, case):
        g = cls()
        for e in edges:
            g.add_transition(*e)
        sub = (list(nodes) if as_list else set(nodes))
        want = ref_compact(edges, set(nodes), new)
        g.compact(sub, new)
        ctx.eq(set(sub), set(nodes), 'argument changed', case)
        got = list(g.all_transitions())
        ctx.ensure(len(got) == len(set(got)), 'transition twice', case)
        ctx.eq({tuple(map(str, e)) for e in got},
               {tuple(map(str, e)) for e in want}, 'compacted graph', case)
        ctx.eq(set(got), want, 'compacted graph', case)
        for e in set(edges) | want:
            ctx.eq(bool(g.has_transition(*e)), e in want,
                   'transition %s' % (e,), case)
        if cls is ConjugateTaskGraph:
            ctx.ensure(g.initial == (new if I in set(nodes) else I),
                       'initial marker', case)
            ctx.ensure(g.terminal == (new if T in set(nodes) else T),
                       'terminal marker', case)
            ctx.ensure(ConjugateTaskGraph.initial is I and
                       ConjugateTaskGraph.terminal is T,
                       'markers of other graphs changed', case)
        ctx.trans(len(edges) + 1)
        ctx.trace()

    def sweep(names, pairs, levels, new, keep=None):
        cls = BaseGraph
        for m in itertools.product(range(levels), repeat=len(pairs)):
            edges = []
            for (x, y), k in zip(pairs, m):
                edges += [(x, l, y) for l in ['x', 'y'][:k]]
            for k in range(len(names) + 1):
                for nodes in itertools.combinations(names, k):
                    if keep is not None and keep not in nodes:
                        continue
                    case = [m, nodes, str(new)]
                    ctx.states_n(1)
                    ctx.run_case(compact, case, cls, edges, nodes, new,
                                 len(nodes) % 2 == 0, case)
    n3 = ['a', 'b', 'c']
    sweep(n3, [(x, y) for x in n3 for y in n3 if x != y], 3, 'N')
    sweep(n3, [(x, y) for x in n3 for y in n3], 2, 'N')
    # into one of the compacted nodes
    sweep(n3, [(x, y) for x in n3 for y in n3], 2, 'a', keep='a')
    if ctx.thorough:
        sweep(n3, [(x, y) for x in n3 for y in n3], 3, 'N')
    n4 = ['a', 'b', 'c', 'd']
    p4 = [(x, y) for x in n4 for y in n4 if x != y]
    if ctx.thorough:
        sweep(n4, p4, 2, 'N')
    else:
        sweep(n4, p4[:8], 2, 'N')
    ctx.sample({'sweep': 'all subsets of all labelled 3/4-node graphs'})
    # conjugate graphs with markers
    x, y = A('x'), A('y')
    cand = [(I, 's', x), (I, 's', y), (x, 't', y), (y, 't', x), (x, 'e', T),
            (y, 'e', T), (x, 'u', x)]
    for bits in itertools.product([0, 1], repeat=len(cand)):
        edges = [e for e, b in zip(cand, bits) if b]
        allnodes = [I, T, x, y]
        for k in range(5):
            for nodes in itertools.combinations(allnodes, k):
                for new in (A('new'),
                            MetaAction('sequence', list(nodes) or [x])):
                    case = ['markers', bits, show(nodes), new.name]
                    ctx.states_n(1)
                    ctx.run_case(compact, case, ConjugateTaskGraph, edges,
                                 nodes, new, True, case)

    # 2. meta actions: every nesting
    leaf = [A(c) for c in 'pqrs']

    def metas(items):
        """All meta-action trees over the ordered leaves."""
        if len(items) == 1:
            yield items[0]
        for k in (2, 3):
            for cuts in itertools.combinations(range(1, len(items)), k - 1):
                bounds = (0,) + cuts + (len(items),)
                parts = [items[a:b] for a, b in zip(bounds, bounds[1:])]
                for subs in itertools.product(*[list(metas(p))
                                                for p in parts]):
                    for kind in KIND:
                        yield MetaAction(kind, list(subs))

    def meta(m, items):
        case = m.name
        if not isinstance(m, MetaAction):
            return
        c = m.to_combination()
        check_comb(ctx, c, m, case)
        ctx.eq([l.name for l in leaves_of(m)], [i.name for i in items],
               'leaves', case)
        m2 = MetaAction(m.kind, list(m.actions))
        ctx.ensure(m == m2 and hash(m) == hash(m2), 'equal meta-actions', case)
        ctx.trans()
        ctx.trace()
    for n in range(1, ctx.pick(4, 5)):
        for m in metas(leaf[:n]):
            ctx.states_n(1)
            ctx.run_case(meta, m.name, m, leaf[:n])

    # 3. extraction: every choice of the next chain/clique until none is left
    def extract(build, case, limit):
        count = [0]
        done = set()

        def step(history):
            """Replays history (list of compacted groups), then branches."""
            ctg = build()
            originals = sorted([n.name for n in ctg.all_nodes()])
            for kind, group in history:
                before = len(ctg.all_nodes())
                ctg.compact(group, MetaAction(kind, list(group)))
                ctx.trans()
                after = len(ctg.all_nodes())
                # compacting everything leaves no transition, hence no node
                ctx.ensure(after < before, 'extraction does not shrink the '
                           'graph', [case, history])
            edges = edges_of(ctg)
            sig = frozenset((str(a), str(l), str(b)) for a, l, b in edges)
            if sig in done and history:
                return
            done.add(sig)
            nodes = ctg.all_nodes()
            if nodes:
                names = sorted(l.name for n in nodes for l in leaves_of(n))
                ctx.eq(names, originals, 'actions after extraction',
                       [case, history])
            elif history:
                last = MetaAction(history[-1][0], list(history[-1][1]))
                ctx.eq(sorted(l.name for l in leaves_of(last)), originals,
                       'actions of the final task', [case, history])
            for n in list(nodes) + ([MetaAction(history[-1][0],
                                                list(history[-1][1]))]
                                    if history else []):
                if isinstance(n, MetaAction):
                    check_comb(ctx, n.to_combination(), n, [case, history])
            if count[0] > limit or not edges:
                return
            count[0] += 1
            chains = [list(c) for c in ctg.get_max_chains()]
            if ctg.initial is I or ctg.initial == I:
                ctx.eq({tuple(map(str, c)) for c in chains},
                       {tuple(map(str, c)) for c in ref_chains(edges)},
                       'chains during extraction', [case, history])
            cliques = [sorted(c, key=str) for c in ctg.get_max_cliques()]
            pairs = {(a, b) for a, _, b in edges if a != b}
            adj = {n: {m for m in nodes if (n, m) in pairs and (m, n) in pairs}
                   for n in nodes}
            ctx.eq({frozenset(map(str, c)) for c in cliques},
                   {frozenset(map(str, c)) for c in brute(adj)},
                   'cliques during extraction', [case, history])
            ctx.trace()
            for c in chains:
                step(history + [('sequence', c)])
            for c in cliques:
                step(history + [('parallel', c)])
        step([])

    full = {(a, b) for a in range(16) for b in range(16)}
    R = [Rel(c, full) for c in 'abcd']

    def word_graph(words):
        """States are sets of done actions (order-insensitive)."""
        tg = TaskGraph()
        for w in words:
            cur, path = 0, [S(0)]
            for c in w:
                cur |= 1 << c
                path += [R[c], S(cur)]
            tg.add_path(path)
        return tg.conjugate()
    perms = [p for k in (1, 2, 3) for p in itertools.permutations(range(3), k)]
    for k in (1, 2, 3):
        for words in itertools.combinations(perms, k):
            ctx.states_n(1)
            ctx.run_case(extract, words, lambda: word_graph(words), words, 60)
    p4 = list(itertools.permutations(range(4)))
    for k in (1, 2):
        for words in itertools.combinations(p4, k):
            ctx.states_n(1)
            ctx.run_case(extract, words, lambda: word_graph(words), words, 60)
    ctx.run_case(extract, 'all orders of 3', lambda: word_graph(
        list(itertools.permutations(range(3)))), 'all orders of 3', 200)
    ctx.sample({'extraction of': words})

    def line_graph(word):
        tg = TaskGraph()
        path = [S(0)]
        for i, c in enumerate(word):
            path += [R[c], S(i + 1)]
        tg.add_path(path)
        return tg.conjugate()
    for k in range(1, ctx.pick(5, 6)):
        for w in itertools.product(range(3), repeat=k):
            ctx.states_n(1)
            ctx.run_case(extract, ['line', w], lambda: line_graph(w),
                         ['line', w], 60)
