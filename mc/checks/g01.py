import itertools

from task_models.state import State
from task_models.action import Action
from task_models.task import TaskGraph, BaseGraph, check_path
from ..graphs import S, Rel, A, show


def ref_valid(path):
    n = len(path)
    if n == 0:
        return True
    if n % 2 == 0:
        return False
    for i, x in enumerate(path):
        if i % 2 == 0 and not isinstance(x, State):
            return False
        if i % 2 == 1 and not isinstance(x, Action):
            return False
    for i in range(1, n, 2):
        if not path[i].check(path[i - 1], path[i + 1]):
            return False
    return True


def triples(path):
    return [(path[i], path[i + 1], path[i + 2])
            for i in range(0, len(path) - 2, 2)]


class Ref(object):
    def __init__(self):
        self.t, self.i, self.f = set(), set(), set()

    def add_path(self, p):
        if p:
            self.i.add(p[0])
            self.f.add(p[-1])
        self.t |= set(triples(p))

    def has_path(self, p):
        return len(p) == 0 or (p[0] in self.i and p[-1] in self.f and
                               all(t in self.t for t in triples(p)))


def compare(ctx, tg, ref, alphabet, queries, case, task=True):
    states, labels = alphabet
    got = list(tg.all_transitions())
    ctx.ensure(len(got) == len(set(got)), 'transition enumerated twice', case)
    ctx.eq(set(got), ref.t, 'enumerated transitions', case)
    for s in states:
        for a in labels:
            for d in states:
                ctx.eq(bool(tg.has_transition(s, a, d)), (s, a, d) in ref.t,
                       'has_transition %s %s %s' % (s, a, d), case)
    ctx.trans(len(states) ** 2 * len(labels))
    nodes = set()
    for s, _, d in ref.t:
        nodes |= {s, d}
    ctx.eq(set(tg.all_nodes()), nodes, 'nodes', case)
    dic = tg.as_dictionary(name='nm')
    ctx.eq(dic['name'], 'nm', 'dictionary name', case)
    ids = [n['id'] for n in dic['nodes']]
    ctx.eq(sorted(ids), list(range(len(nodes))), 'dictionary ids', case)
    byid = {n['id']: n['value']['label'] for n in dic['nodes']}
    ctx.eq(sorted(byid.values()), sorted(str(n) for n in nodes),
           'dictionary nodes', case)
    links = sorted((byid[l['u']], l['value']['label'], byid[l['v']])
                   for l in dic['links'])
    ctx.eq(links, sorted((str(s), str(l), str(d)) for s, l, d in ref.t),
           'dictionary links', case)
    if task:
        for q in queries:
            ctx.eq(bool(tg.has_path(q)), ref.has_path(q),
                   'membership of %s' % show(q), case)
        ctx.trans(len(queries))


def run(ctx):
    # 1. every sequence over the alphabet up to a length: validity, atomicity
    s = [S(0), S(1), S(2)]
    a = Rel('a', {(0, 1), (1, 2), (0, 0), (2, 1)})
    b = Rel('b', {(1, 0), (2, 2), (0, 1), (0, 2)})
    junk = 'junk'
    symbols = s[:2] + [s[2]] + [a, b, junk]
    maxlen = ctx.pick(5, 6)

    def one(path):
        ok = ref_valid(path)
        case = show(path)
        got = check_path(path)
        ctx.eq(bool(got), ok, 'validity of path', case)
        for base in ([], [s[0], a, s[1]]):
            tg, ref = TaskGraph(), Ref()
            if base:
                tg.add_path(base)
                ref.add_path(base)
            before = (set(tg.all_transitions()), set(tg.initial),
                      set(tg.terminal))
            try:
                tg.add_path(path)
                ctx.ensure(ok, 'invalid path accepted', case)
                ref.add_path(path)
                ctx.ensure(tg.has_path(path), 'added path is not a member',
                           case)
            except ValueError:
                ctx.ensure(not ok, 'valid path refused', case)
                ctx.eq((set(tg.all_transitions()), set(tg.initial),
                        set(tg.terminal)), before,
                       'graph changed by a refused path', case)
                try:
                    tg.has_path(path)
                    ctx.fail('membership of an invalid path answered', case)
                except ValueError:
                    pass
            ctx.eq(set(tg.all_transitions()), ref.t, 'transitions', case)
            ctx.eq(set(tg.initial), ref.i, 'initial states', case)
            ctx.eq(set(tg.terminal), ref.f, 'terminal states', case)
            ctx.trans(2)
        ctx.trace()

    n = 0
    for k in range(maxlen + 1):
        for path in itertools.product(symbols, repeat=k):
            path = list(path)
            n += 1
            if n % 37 == 0:
                ctx.sample(show(path))
            ctx.run_case(one, show(path), path)
    ctx.states_n(n)
    # valid long paths with one single defect at each position
    good = [s[0], a, s[1], b, s[0], b, s[2], a, s[1], a, s[2]]
    for L in (7, 9, 11):
        for pos in range(L):
            for x in symbols:
                path = good[:L]
                path[pos] = x
                ctx.states_n(1)
                ctx.run_case(one, show(path), path)
        for cut in range(L):
            path = good[:cut] + good[cut + 1:L]
            ctx.states_n(1)
            ctx.run_case(one, show(path), path)

    # paths of thousands of transitions, with a defect at a few positions
    period = [s[0], a, s[1], b]
    n = ctx.pick(4000, 10000)
    very = period * (n // 2) + [s[0]]
    for pos in [None, 0, 1, n - 1, n, n + 1, len(very) - 2, len(very) - 1]:
        for x in ([None] if pos is None else ['cut', junk, a, s[2]]):
            path = list(very)
            if x == 'cut':
                del path[pos]
            elif pos is not None:
                path[pos] = x
            ctx.states_n(1)
            ctx.run_case(one, '%d transitions, %s at %s' % (
                n, show([x]), pos), path)

    # 2. all histories of additions, single transitions and removals
    u = Rel('u', {(x, y) for x in range(3) for y in range(3)})
    w = Rel('w', {(x, y) for x in range(3) for y in range(3)})
    P = [[], [s[0]], [s[1]], [s[0], u, s[1]], [s[1], u, s[2]],
         [s[0], u, s[1], w, s[2]], [s[2], w, s[2]],
         [s[0], w, s[1], u, s[0]], [s[1], w, s[0], u, s[1], w, s[2]]]
    ops = [('path', p) for p in P] + [
        ('tr', (s[0], u, s[2])), ('tr', (s[2], u, s[0])),
        ('rm', (s[0], u, s[1])), ('rm', (s[2], w, s[2])),
        ('rm', (s[0], u, s[2]))]
    queries = []
    for k in (0, 1, 2):
        for st in itertools.product(s, repeat=k + 1):
            for ac in itertools.product([u, w], repeat=k):
                q = [st[0]]
                for x, y in zip(ac, st[1:]):
                    q += [x, y]
                queries.append(q)
    queries += [[]] + [P[-1], P[-2] + P[5][1:]]

    def history(h):
        case = [(k, show(x)) for k, x in h]
        tg, ref = TaskGraph(), Ref()
        for k, x in h:
            if k == 'path':
                tg.add_path(x)
                ref.add_path(x)
            elif k == 'tr':
                tg.add_transition(*x)
                ref.t.add(x)
            else:
                if x not in ref.t:
                    return None
                tg.remove_transition(*x)
                ref.t.remove(x)
            ctx.trans()
        compare(ctx, tg, ref, (s, [u, w]), queries, case)
        ctx.eq(set(tg.initial), ref.i, 'initial states', case)
        ctx.eq(set(tg.terminal), ref.f, 'terminal states', case)
        ctx.trace()
        return tg, ref

    depth = ctx.pick(3, 4)
    seen = {}
    for k in range(depth + 1):
        for h in itertools.product(ops, repeat=k):
            case = [(kk, show(x)) for kk, x in h]
            r = ctx.run_case(history, case, h)
            ctx.state(repr(case))
            if r is None:
                continue
            tg, ref = r
            key = (frozenset(ref.t), frozenset(ref.i), frozenset(ref.f))
            seen.setdefault(key, (tg, case))
            other, ocase = seen[key]

            def same():
                ctx.ensure(tg == other, 'graphs of same content unequal',
                           [case, ocase])
                ctx.ensure(not (tg != other), 'graphs both == and !=',
                           [case, ocase])
            ctx.run_case(same, case)
    # equality distinguishes different contents
    items = sorted(seen.items(), key=lambda kv: repr(kv[1][1]))
    items = items[:ctx.pick(150, 500)]
    for i, (k1, (g1, c1)) in enumerate(items):
        def diff():
            for k2, (g2, c2) in items[i + 1:]:
                ctx.trans()
                ctx.ensure(not (g1 == g2), 'different graphs equal', [c1, c2])
                ctx.ensure(not (g2 == g1), 'different graphs equal', [c2, c1])
            ctx.ensure(not (g1 == 'x'), 'graph equals a string', c1)
            # a plain graph has no initial and terminal states
            plain = BaseGraph()
            for t in k1[0]:
                plain.add_transition(*t)
            ctx.ensure((g1 == plain) == (plain == g1),
                       'comparison with a plain graph is one-way', c1)
            ctx.ensure(not ((k1[1] or k1[2]) and g1 == plain),
                       'equals a plain graph', c1)
        ctx.run_case(diff, c1)

    # 3. plain labelled graphs (no path semantics)
    ts = [(x, l, y) for x in 'ab' for l in 'xy' for y in 'ab']

    def base(bits):
        g, h, ref = BaseGraph(), BaseGraph(), Ref()
        chosen = [t for t, bb in zip(ts, bits) if bb]
        for t in chosen:
            g.add_transition(*t)
            ref.t.add(t)
        for t in reversed(chosen):
            h.add_transition(*t)
            h.add_transition(*t)
        compare(ctx, g, ref, ('ab', 'xy'), [], chosen, task=False)
        ctx.ensure(g == h, 'insertion order matters', chosen)
        for t in chosen:
            h.remove_transition(*t)
            ctx.ensure(not (g == h), 'different graphs equal', chosen)
            ctx.eq(set(h.all_transitions()), ref.t - {t}, 'removal', chosen)
            h.add_transition(*t)
        ctx.ensure(g == h, 'remove/add is not neutral', chosen)
        for t in chosen:
            h.remove_transition(*t)
        ctx.ensure(h == BaseGraph(), 'emptied graph differs from empty graph',
                   chosen)
        ctx.trace()
    for bits in itertools.product([0, 1], repeat=len(ts)):
        ctx.states_n(1)
        ctx.run_case(base, bits, bits)
