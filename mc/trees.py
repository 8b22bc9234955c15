"""Bounded enumeration of hierarchical tasks, their construction and their
linearisations (by definition)."""
import functools
import itertools

from task_models.task import (LeafCombination, SequentialCombination,
                              AlternativeCombination, ParallelCombination)

CLS = {'S': SequentialCombination, 'A': AlternativeCombination,
       'P': ParallelCombination}


@functools.lru_cache(None)
def shapes(n, depth, unary=False, kinds='SAP'):
    """All trees with n leaves: 'L' or (kind, (child, ...))."""
    out = []
    if n == 1:
        out.append('L')
    if depth > 0:
        for k in range(1 if unary else 2, n + 1):
            for sizes in compositions(n, k):
                subs = [shapes(m, depth - 1, unary, kinds) for m in sizes]
                for ch in itertools.product(*subs):
                    for kind in kinds:
                        out.append((kind, ch))
    return tuple(out)


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(1, n - k + 2):
        for r in compositions(n - i, k - 1):
            yield (i,) + r


def n_leaves(t):
    return 1 if t == 'L' else sum(n_leaves(c) for c in t[1])


def n_nodes(t):
    return 1 if t == 'L' else 1 + sum(n_nodes(c) for c in t[1])


def show(t):
    return t if t == 'L' else '%s(%s)' % (t[0], ' '.join(map(show, t[1])))


def label(t, start=0):
    """Replaces leaves by their number in depth-first order."""
    if t == 'L':
        return start, start + 1
    ch = []
    for c in t[1]:
        lc, start = label(c, start)
        ch.append(lc)
    return (t[0], tuple(ch)), start


def lin(t):
    """Set of leaf sequences of a labelled tree."""
    if isinstance(t, int):
        return {(t,)}
    subs = [lin(c) for c in t[1]]
    if t[0] == 'A':
        return set().union(*subs)
    orders = [range(len(subs))] if t[0] == 'S' else \
        itertools.permutations(range(len(subs)))
    out = set()
    for o in orders:
        for parts in itertools.product(*[subs[i] for i in o]):
            out.add(tuple(x for p in parts for x in p))
    return out


def linearisations(t):
    return lin(label(t)[0])


def build(t, leaf, proba=None, highlight=None):
    """Real combination; leaf(i) gives the action of leaf i, highlight(k)
    tells whether node k (depth-first) is highlighted."""
    cnt = [0, 0]

    def rec(t):
        k = cnt[1]
        cnt[1] += 1
        hl = bool(highlight(k)) if highlight else False
        if t == 'L':
            i = cnt[0]
            cnt[0] += 1
            return LeafCombination(leaf(i), highlighted=hl)
        ch = [rec(c) for c in t[1]]
        kw = {}
        if t[0] == 'A' and proba is not None:
            kw['probabilities'] = proba(len(ch))
        return CLS[t[0]](ch, name='n%d' % k, highlighted=hl, **kw)
    return rec(t)


def skew(n):
    """Unequal probabilities for the branches of an alternative."""
    return [2. * (i + 1) / (n * (n + 1)) for i in range(n)]


def _n(kind, *ch):
    return (kind, tuple(ch))


def _deep(kinds, n):
    """Nested n times, kinds in turn: k1(L k2(L k3(...)))."""
    t = 'L'
    for i in reversed(range(n)):
        t = _n(kinds[i % len(kinds)], 'L', t)
    return t


def _left(kinds, n):
    t = 'L'
    for i in range(n):
        t = _n(kinds[i % len(kinds)], t, 'L')
    return t


_L = ('L',)
# wide, deep and mixed tasks of few executions
LARGE = [
    ('S', _L * 14), ('A', _L * 9), _n('S', ('A', _L * 7), ('A', _L * 6)),
    ('A', (('S', _L * 2),) * 7), _n('A', ('S', _L * 9), 'L', ('S', _L * 7)),
    _n('S', ('A', _L * 6), 'L', 'L', 'L', ('A', _L * 7), ('S', _L * 4)),
    _n('S', ('P', _L * 3), 'L', ('A', _L * 5), ('S', _L * 6)),
    ('P', _L * 4), _deep('SA', 9), _deep('AS', 9), _deep('A', 8),
    _left('SA', 9), _left('A', 8), _left('S', 12), _deep('S', 12),
    _n('P', ('S', _L * 6), ('A', _L * 4)),
    _n('A', ('A', _L * 6), ('P', _L * 3), ('S', _L * 8)),
    _n('S', 'L', _n('A', 'L', _n('P', 'L', 'L', ('A', _L * 3))), 'L'),
    _n('S', *(_L * 7 + (_n('A', 'L', _n('A', 'L', 'L', ('A', _L * 2))),
                        'L', _n('A', ('A', _L * 3), 'L')))),
]
LARGER = [
    ('S', _L * 45), _n('S', ('A', _L * 12), ('A', _L * 11), 'L'),
    _deep('SA', 20), _deep('AS', 25), _left('SA', 24),
    _n('S', ('P', _L * 4), ('P', _L * 2), 'L'),
    _n('P', ('S', _L * 12), ('A', _L * 6), 'L'),
]


def walk(node):
    yield node
    if not isinstance(node, LeafCombination):
        for c in node.children:
            for x in walk(c):
                yield x


def expand(t):
    """Tree with parallel nodes replaced by alternatives of sequences;
    leaves are (number, copy) pairs... only used on labelled trees."""
    if isinstance(t, int):
        return t
    ch = [expand(c) for c in t[1]]
    if t[0] == 'P':
        return ('A', tuple(('S', tuple(ch[i] for i in o))
                           for o in itertools.permutations(range(len(ch)))))
    return (t[0], tuple(ch))


def expanded_leaves(node):
    """Number of leaves of a real hierarchy once parallel combinations are
    expanded into all their orders."""
    if isinstance(node, LeafCombination):
        return 1
    n = sum(expanded_leaves(c) for c in node.children)
    if isinstance(node, ParallelCombination):
        for i in range(2, len(node.children) + 1):
            n *= i
    return n
